//! How often each move is chosen: by self-play, by matches, by the next-move function and by the
//! selection itself, in one and the same position.
use crate::{games::*, matches::{log, Logged}, nets, selfplay::az, store::ttt_position, util::*};
use die_e::{alphazero::{alphazero::AlphaZero, nnet::ResNet}, backgammon::backgammon_logic::Backgammon, base::LearnableGame, mcts::{alpha_mcts::{alpha_mcts, alpha_mcts_parallel}, node::Node, node_store::NodeStore, utils::get_prob_tensor_parallel}, tictactoe::TicTacToe, versus::{play, Agent, Player}};
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use tch::Tensor;

type G = Logged<Small<TicTacToe>>;
/// shares of visits as the smallest whole numbers with these shares
fn visits(pi: &[f64]) -> Option<Vec<i64>> {
    (1..200).map(|t| pi.iter().map(|x| x * t as f64).collect::<Vec<_>>())
        .find(|v| v.iter().all(|x| (x - x.round()).abs() < 1e-3)).map(|v| v.iter().map(|x| x.round() as i64).collect())
}
/// temperature and its inverse as a fraction
const TEMPS: [(f64, i64, i64); 9] = [(1., 1, 1), (0.5, 2, 1), (0.25, 4, 1), (2., 1, 2), (4., 1, 4), (4. / 3., 3, 4), (0.1, 10, 1), (0.05, 20, 1), (16., 1, 16)];

/// would these visits be chosen from otherwise at temperature 1?
fn telling(n: &[i64], temp: f64, mixed: bool) -> bool {
    let share = |t: f64| { let w: Vec<f64> = n.iter().map(|x| if *x > 0 { (*x as f64).powf(1. / t) } else { 0. }).collect(); let s: f64 = w.iter().sum(); w.iter().map(|x| x / s).collect::<Vec<_>>() };
    let far = |t: f64| share(temp).iter().zip(share(t)).map(|(a, b)| (a - b).abs()).fold(0., f64::max);
    far(1.) > if mixed { 0.1 } else { 0.22 }
        // extreme temperatures are not less extreme ones
        && (temp < 10. || far(3.) > 0.14) && (temp > 0.2 || far(0.3) > 0.14)
        // and not all from one move
        && (!mixed || share(temp).into_iter().fold(0., f64::max) < 0.8)
}
/// first move really made by the side `p` in each logged game whose first turn it is
fn firsts(p: i8) -> Vec<Option<u32>> {
    log(|l| (0..l.len()).filter(|&i| l[i].root).filter_map(|i| {
        let mut at = i;
        // a match opened by the other side begins with a pass
        if let Some((next, m)) = &l[i].last { if m.is_null() { at = *next } }
        let s: &Small<TicTacToe> = l[at].state.downcast_ref()?;
        if s.get_player() != p { return None; }
        Some(match &l[at].last { Some((_, m)) => serde_json::from_value::<<TicTacToe as LearnableGame>::Move>(m.clone()).ok().map(|m| s.encode(&m)), None => None })
    }).collect())
}
fn tally(chosen: &[Option<u32>], size: usize) -> (Vec<i64>, i64) {
    let mut c = vec![0; size];
    let mut other = 0;
    for x in chosen { match x { Some(k) if (*k as usize) < size => c[*k as usize] += 1, _ => other += 1 } }
    (c, other)
}
fn begin(rng: &mut StdRng, from: usize, to: usize) -> Small<TicTacToe> {
    loop {
        let s = ttt_position(rng);
        let n = s.get_valid_moves().len();
        if s.check_winner().is_none() && n >= from && n <= to { set_start(Some(json!(s.g))); return s; }
    }
}

/// a position to begin in and a network, mostly such that the temperature makes a difference
fn sure(r: &mut StdRng, cf: &mut Conf, temp: f64, from: usize, to: usize, side: Option<i8>) -> (Small<TicTacToe>, (i64, f64, f64)) {
    let mut k = 0;
    let mixed = r.gen();
    let (s, seed, pg, vg) = loop {
        k += 1;
        let s = begin(r, from, to);
        let mut at = s;
        if side.map(|p| at.get_player() != p).unwrap_or(false) { at.skip_turn() }
        cf.c = *[1., 2., 5.].choose(r).unwrap();
        let (seed, pg, vg) = (r.gen_range(1..1000000), *[0.5, 2., 4., 8.].choose(r).unwrap(), *[0., 1., 3.].choose(r).unwrap());
        let pi = alpha_mcts(&at, &nets::random::<Small<TicTacToe>>(seed, pg, vg), &cf.mcts()).map(|p| nets::floats(&p)).unwrap_or_default();
        if k == 40 || temp == 1. || visits(&pi).map(|n| telling(&n, temp, mixed)).unwrap_or(false) { break (s, seed, pg, vg) }
    };
    (s, (seed, pg, vg))
}
/// one where moves with hardly any visits are chosen often, together
fn tail(r: &mut StdRng, cf: &mut Conf, temp: f64) -> (Small<TicTacToe>, (i64, f64, f64)) {
    for _ in 0..60 {
        let s = begin(r, 6, 9);
        cf.iterations = r.gen_range(42..70);
        cf.c = 0.3;
        let (seed, pg, vg) = (r.gen_range(1..1000000), *[4., 8.].choose(r).unwrap(), *[3., 8.].choose(r).unwrap());
        let Some(pi) = alpha_mcts(&s, &nets::random::<Small<TicTacToe>>(seed, pg, vg), &cf.mcts()).map(|p| nets::floats(&p)) else { continue };
        let mx = pi.iter().cloned().fold(0., f64::max);
        let w: Vec<f64> = pi.iter().map(|x| (x / mx).powf(1. / temp)).collect();
        let rare: f64 = w.iter().filter(|x| **x < 0.03).sum();
        if rare / w.iter().sum::<f64>() > 0.09 { return (s, (seed, pg, vg)) }
    }
    sure(r, cf, temp, 2, 8, None)
}

pub fn chances(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 24);
    let mut t = Trace::new(a.out());
    let mut draws = 0;
    for i in a.part(n) {
        let r = &mut rng;
        const HOW: [&str; 18] = ["pick", "batch", "next", "pick", "match", "batch", "alone", "batch", "match", "even", "pick", "playout", "rollouts", "few", "wide", "tail", "again", "late"];
        let (how, turn) = (HOW[i % HOW.len()], i / HOW.len());
        // temperatures above and below 1 in turns
        let hot = (turn + (i % HOW.len() == 8) as usize) % 2 == 0;
        let (temp, a, b) = loop { let x = *TEMPS.choose(r).unwrap();
            if how == "tail" { if x.0 == 1. { break x } }
            else if x.0 != 1. && (x.0 > 1.) == hot || x.0 == 1. && turn % 5 == 4 && !matches!(how, "few" | "alone" | "late") { break x } };
        let mut cf = Conf { iterations: r.gen_range(6..24), eps: 0., temperature: temp, c: *[1., 2., 5.].choose(r).unwrap(), ..Conf::default() };
        log(|l| l.clear());
        let rec: Result<Value, String> = guarded(|| match how {
            "pick" => {
                let scale = *[0.037f32, 0.0001, 1., 3.].choose(r).unwrap();
                let many = r.gen_bool(0.5);
                let k = if many { r.gen_range(20..120) } else { r.gen_range(1..14) };
                let top = if many { *[2, 8, 40].choose(r).unwrap() } else { 40 };
                let n: Vec<i64> = (0..k).map(|_| if r.gen_bool(0.3) { 0 } else { r.gen_range(1..=top) }).collect();
                if n.iter().all(|x| *x == 0) { return Value::Null; }
                let mut n = n;
                // nearly all visits on one move
                if r.gen_bool(0.25) { let s: i64 = n.iter().sum(); let j = r.gen_range(0..k); n[j] = (s + 1) * r.gen_range(8..20); }
                let n = n;
                let w = Tensor::from_slice(&n.iter().map(|x| *x as f32 * scale).collect::<Vec<_>>());
                let c: Vec<Option<u32>> = (0..3000).map(|_| Some(AlphaZero::weighted_select_tensor_idx(&w) as u32)).collect();
                let (c, o) = tally(&c, k);
                json!({"a": 1, "b": 1, "n": n, "count": c, "other": o})
            }
            "even" => {
                // backgammon: the other side is about to win, the random agent has many moves before that
                let first: bool = r.gen();
                let mut g = Backgammon::new();
                g.board = ([0; 24], (0, 0), (0, 0));
                let p: i8 = if first { -1 } else { 1 };
                for _ in 0..15 { loop { let k = r.gen_range(1..23); if g.board.0[k].abs() < 4 { g.board.0[k] += p; break } } }
                if first { g.board.0[23] = 1; g.board.2 = (0, 14) } else { g.board.0[0] = -1; g.board.2 = (14, 0) }
                set_start(Some(json!(g)));
                let _ = play::<Logged<Small<Backgammon>>>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &cf.mcts(), 1.);
                // the turns of that agent, game by game
                let games: Vec<Vec<(usize, usize)>> = log(|l| (0..l.len()).filter(|&i| l[i].root).map(|i| {
                    let (mut at, mut out) = (i, vec![]);
                    while let Some((next, m)) = &l[at].last {
                        let s: &Small<Backgammon> = l[at].state.downcast_ref().unwrap();
                        if s.get_player() == p && !m.is_null() {
                            let off = s.get_valid_moves();
                            let m = serde_json::from_value::<<Backgammon as LearnableGame>::Move>(m.clone()).ok();
                            out.push((off.len(), off.iter().position(|x| Some(x) == m.as_ref()).map(|k| k + 1).unwrap_or(0)));
                        }
                        at = *next;
                    }
                    out
                }).collect());
                let turns: Vec<&(usize, usize)> = games.iter().flatten().collect();
                // two turns of one game, one after the other
                let pairs: Vec<Value> = games.iter().flat_map(|g| g.chunks_exact(2).map(|x| json!([x[0].0, x[0].1, x[1].0, x[1].1])).collect::<Vec<_>>()).collect();
                return json!({"turns": turns, "pairs": pairs, "n": [0], "count": [turns.len()]});
            }
            "again" => {
                // random games: a side's second choice of two knows nothing of the first
                set_start(None);
                for _ in 0..2 { let _ = play::<G>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &cf.mcts(), 1.); }
                let games: Vec<[Vec<(usize, usize)>; 2]> = log(|l| (0..l.len()).filter(|&i| l[i].root).map(|i| {
                    let (mut at, mut out) = (i, [vec![], vec![]]);
                    while let Some((next, m)) = &l[at].last {
                        let s: &Small<TicTacToe> = l[at].state.downcast_ref().unwrap();
                        if !m.is_null() {
                            let off = s.get_valid_moves();
                            let m = serde_json::from_value::<<TicTacToe as LearnableGame>::Move>(m.clone()).ok();
                            out[(s.get_player() == 1) as usize].push((off.len(), off.iter().position(|x| Some(x) == m.as_ref()).map(|k| k + 1).unwrap_or(0)));
                        }
                        at = *next;
                    }
                    out
                }).collect());
                let of = |k: usize| -> Vec<&(usize, usize)> { games.iter().filter_map(|g| g[k / 4].get(k % 4)).collect() };
                // of either side; and the same turn in two games, one after the other
                let mut pairs: Vec<Value> = games.iter().flatten().flat_map(|g| g.chunks_exact(2).map(|x| json!([x[0].0, x[0].1, x[1].0, x[1].1])).collect::<Vec<_>>()).collect();
                let apart: Vec<Value> = (0..8).flat_map(|k| { let v = of(k); v.chunks_exact(2).map(|x| json!([x[0].0, x[0].1, x[1].0, x[1].1])).collect::<Vec<_>>() }).collect();
                pairs.retain(|p| p[2].as_u64() > Some(1));
                let turns: Vec<&(usize, usize)> = games.iter().flatten().flatten().collect();
                return json!({"turns": turns, "pairs": pairs, "apart": apart, "n": [0], "count": [turns.len()]});
            }
            "playout" => {
                // whole random games of backgammon
                set_start(None);
                let mut turns: Vec<Value> = vec![];
                for _ in 0..12 {
                    log(|l| l.clear());
                    let mut s = Logged::<Small<Backgammon>>::new();
                    s.roll_die();
                    let p = if r.gen() { 1 } else { -1 };
                    let _ = Node::new(s, 0, None, None, 0.).simulate(p, 2000);
                    turns.extend(log(|l| l.iter().filter_map(|n| {
                        let s: &Small<Backgammon> = n.state.downcast_ref()?;
                        let (_, m) = n.last.as_ref()?;
                        if m.is_null() { return None; }
                        let off = s.get_valid_moves();
                        let m = serde_json::from_value::<<Backgammon as LearnableGame>::Move>(m.clone()).ok()?;
                        Some(json!([off.len(), off.iter().position(|x| *x == m).map(|k| k + 1).unwrap_or(0)]))
                    }).collect::<Vec<_>>()));
                }
                return json!({"turns": turns, "n": [0], "count": [turns.len()]});
            }
            "late" => {
                // choices throughout long games, every position with its own visits
                let kind = turn % 3;
                cf.iterations = r.gen_range(8..14);
                cf.num_self_play_batches = 12;
                cf.c = 2.;
                let open = |r: &mut StdRng| { let mut g = line(r, 64, 1); let k = r.gen_range(3..6);
                    for v in 0..64 { let mut m: Vec<u8> = (0..ACTIONS as u8).collect(); m.shuffle(r); m.truncate(k); g.v[v].to = vec![v as u32 + 1; k]; g.v[v].mv = m; } g };
                let x = open(r);
                let g = if kind == 2 { let y = open(r); crate::matches::twin(x, y) } else { x };
                set_graph(g);
                let (seed, gain) = (r.gen_range(1..1000000), *[6., 10.].choose(r).unwrap());
                let net = || nets::random::<Script>(seed, gain, 1.);
                let side: i8 = if r.gen() { 1 } else { -1 };
                match kind {
                    0 => { let z = az::<Logged<Script>>(&cf, net()); z.self_play_parallel::<Logged<Script>>(); }
                    1 => { let z = az::<Logged<Script>>(&cf, net()); for _ in 0..12 { z.self_play::<Logged<Script>>(); } }
                    _ => { cf.iterations = 8; let q = |s: i8| if s == side { Player::new(Agent::Model, Some(net())) } else { Player::new(Agent::Random, None) };
                        let _ = play::<Logged<Script>>(q(-1), q(1), &cf.mcts(), temp); }
                }
                let made: Vec<(Script, u8)> = log(|l| {
                    let mut out = vec![];
                    for i in 0..l.len() {
                        if !l[i].root { continue }
                        let mut at = i;
                        while let Some((next, m)) = &l[at].last {
                            let s: &Script = l[at].state.downcast_ref().unwrap();
                            if !m.is_null() && (kind < 2 || s.p() == side) { out.push((*s, serde_json::from_value(m.clone()).unwrap())) }
                            at = *next;
                        }
                    }
                    out
                });
                let (early, late): (Vec<_>, Vec<_>) = made.into_iter().partition(|x| x.0.ply < 30);
                let net = net();
                let turns: Vec<Value> = early.choose_multiple(r, 400).chain(late.choose_multiple(r, 400)).filter_map(|(s, m)| {
                    let pi = nets::floats(&alpha_mcts(s, &net, &cf.mcts())?);
                    let off = s.get_valid_moves();
                    let n = visits(&off.iter().map(|m| pi[s.encode(m) as usize]).collect::<Vec<_>>())?;
                    Some(json!({"n": n, "m": off.iter().position(|x| x == m).map(|k| k + 1).unwrap_or(0), "ply": s.ply, "p": s.p()}))
                }).collect();
                return json!({"a": a, "b": b, "turns": turns, "n": [0], "count": [turns.len()]});
            }
            "rollouts" => {
                // the same move of a playout again and again
                let s = begin(r, 3, 8);
                let node = |g| Node::new(g, 0, None, None, 0.);
                for _ in 0..2000 { let p = if r.gen() { 1 } else { -1 }; let _ = node(G::new()).simulate(p, r.gen_range(1..10)); }
                let c: Vec<Option<u32>> = firsts(s.get_player());
                let (c, o) = tally(&c, 9);
                let mut v = vec![0; 9];
                for m in s.get_valid_moves() { v[s.encode(&m) as usize] = 1 }
                json!({"a": 1, "b": 1, "n": v, "count": c, "other": o + if c.iter().sum::<i64>() == 2000 { 0 } else { 1 }})
            }
            "wide" => {
                // a playout that begins with a great many moves
                set_start(None);
                let s = loop {
                    let mut g = Backgammon::new();
                    g.board = ([0; 24], (0, 0), (0, 0));
                    let p = g.get_player();
                    for _ in 0..15 { let k = r.gen_range(0..24); g.board.0[k] += p }
                    let d = r.gen_range(1..=6);
                    g.roll = if r.gen_bool(0.8) { (d, d) } else { (r.gen_range(1..=6), r.gen_range(1..=6)) };
                    let k = g.get_valid_moves().len();
                    if g.roll.0 > 0 && k > 32 && k < 120 { break g }
                };
                let off = s.get_valid_moves();
                let c: Vec<Option<u32>> = (0..20 * off.len() + 1500).map(|_| {
                    log(|l| l.clear());
                    let mut at = Logged::<Small<Backgammon>>::new();
                    at.g.g = s;
                    let _ = Node::new(at, 0, None, None, 0.).simulate(1, 1);
                    log(|l| l.iter().find_map(|n| n.last.as_ref().map(|x| x.1.clone()))).and_then(|m| serde_json::from_value::<<Backgammon as LearnableGame>::Move>(m).ok()).and_then(|m| off.iter().position(|x| *x == m)).map(|k| k as u32)
                }).collect();
                let (c, o) = tally(&c, off.len());
                json!({"a": 1, "b": 1, "n": vec![1; off.len()], "count": c, "other": o})
            }
            "next" => {
                cf.iterations = cf.iterations.min(12);
                let (s, net) = sure(r, &mut cf, temp, 2, 6, None);
                let net = || nets::random::<G>(net.0, net.1, net.2);
                let s = Logged { g: s, ver: log(|l| { l.push(crate::matches::Node { state: Box::new(s), last: None, kids: 0, seen: 0, root: false }); l.len() - 1 }) };
                let z = az::<G>(&cf, net());
                let pi = nets::floats(&alpha_mcts(&s, &z.model, &cf.mcts()).unwrap());
                let c: Vec<Option<u32>> = (0..240).map(|_| Some(s.encode(&z.get_next_move_for_state(&s)))).collect();
                let (c, o) = tally(&c, 9);
                json!({"a": a, "b": b, "n": visits(&pi), "count": c, "other": o})
            }
            "batch" | "few" | "tail" => {
                let few = how == "few";
                if few { cf.iterations = cf.iterations.min(10) }
                let (s, net) = if how == "tail" { tail(r, &mut cf, temp) } else { let (s, p) = sure(r, &mut cf, temp, 2, if few { 5 } else { 8 }, None); (s, p) };
                let net = || nets::random::<G>(net.0, net.1, net.2);
                cf.num_self_play_batches = if few { [1, 2, 1, 3, 1][turn % 5] } else if how == "tail" { 900 } else { r.gen_range(300..700) };
                cf.limit = 1;
                let z = az::<G>(&cf, net());
                // once with many games or again and again with few
                let out: Vec<_> = (0..if few { 240 / cf.num_self_play_batches } else { 1 }).flat_map(|_| z.self_play_parallel::<G>()).collect();
                let key: Vec<f64> = nets::floats(&s.as_tensor());
                // what the games recorded for the first position
                let ps: BTreeMap<String, Vec<f64>> = out.iter().filter(|m| nets::floats(&m.state) == key).map(|m| { let f = nets::floats(&m.ps); (format!("{f:?}"), f) }).collect();
                if ps.len() != 1 { return json!({"a": a, "b": b, "n": vec![0; 9], "count": vec![0; 9], "other": 1}); }
                let (c, o) = tally(&firsts(s.get_player()), 9);
                json!({"a": a, "b": b, "n": visits(ps.values().next().unwrap()), "count": c, "other": o})
            }
            "alone" => {
                cf.iterations = cf.iterations.min(8);
                let (s, net) = sure(r, &mut cf, temp, 2, 4, None);
                let net = || nets::random::<G>(net.0, net.1, net.2);
                let z = az::<G>(&cf, net());
                let key: Vec<f64> = nets::floats(&s.as_tensor());
                let mut ps: BTreeMap<String, Vec<f64>> = Default::default();
                for _ in 0..160 { for m in z.self_play::<G>() { if nets::floats(&m.state) == key { let f = nets::floats(&m.ps); ps.insert(format!("{f:?}"), f); } } }
                if ps.len() != 1 { return json!({"a": a, "b": b, "n": vec![0; 9], "count": vec![0; 9], "other": 1}); }
                let (c, o) = tally(&firsts(s.get_player()), 9);
                json!({"a": a, "b": b, "n": visits(ps.values().next().unwrap()), "count": c, "other": o})
            }
            _ => {
                let first: bool = r.gen();
                let model = turn % 5 != 3;
                cf.iterations = cf.iterations.min(14);
                // the agent asked about sits in the first or the second seat
                let kind = |m: bool| if m { Agent::Model } else { Agent::Random };
                let own = |m: bool, net: &ResNet| if m { let mut x = nets::random::<G>(1, 1., 1.); x.vs.copy(&net.vs).unwrap(); Some(x) } else { None };
                let (p1, p2) = if first { (model, false) } else { (false, model) };
                let side = if first { -1 } else { 1 };
                let (_, net) = sure(r, &mut cf, temp, 3, 7, Some(side));
                let net = nets::random::<G>(net.0, net.1, net.2);
                let mut at = G::new();
                if at.get_player() != side { at.skip_turn(); }
                let n = if model {
                    let mut store = NodeStore::new();
                    alpha_mcts_parallel(&mut store, &vec![at; 200], &net, &cf.mcts(), Some(indicatif::ProgressBar::hidden()));
                    let roots = store.get_root_nodes();
                    visits(&nets::floats(&get_prob_tensor_parallel(&roots[..1], &store)))
                } else { let mut v = vec![0; 9]; for m in at.get_valid_moves() { v[at.encode(&m) as usize] = 1 } Some(v) };
                                log(|l| l.clear());
                let _ = play::<G>(Player::new(kind(p1), own(p1, &net)), Player::new(kind(p2), own(p2, &net)), &cf.mcts(), temp);
                let (c, o) = tally(&firsts(side), 9);
                json!({"a": if model { a } else { 1 }, "b": if model { b } else { 1 }, "n": n, "count": c, "other": o})
            }
        });
        let mut rec = match rec { Ok(v) if v.is_null() || v["n"].is_null() => continue, Ok(v) => v, Err(_) => json!({"a": 1, "b": 1, "n": [0], "count": [0], "other": 1}) };
        rec["how"] = json!(how);
        draws += rec["count"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).sum::<i64>();
        t.put(&rec);
    }
    println!("\n{}", json!({"situations": t.done(), "choices": draws}));
}
