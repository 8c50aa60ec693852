//! The searches made by self-play, matches, evaluations and single moves: they are recorded where
//! they are used, with the budgets those were configured with.
use crate::{games::*, matches::twin, nets, search::{micro, record}, selfplay::az, util::*};
use die_e::{alphazero::nnet::ResNet, base::LearnableGame, constants::DEVICE, tictactoe::TicTacToe, verif::{self, NodeView}, versus::{play, Agent, Player}};
use rand::prelude::*;
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use tch::nn::VarStore;

type Search = Vec<Vec<NodeView>>;

/// the searches of a run: within one the first root gains a visit every iteration
fn split(snaps: Vec<Vec<NodeView>>) -> Vec<Search> {
    let mut out: Vec<Search> = vec![];
    let vis = |s: &Vec<NodeView>| s.first().map(|n| n.visits).unwrap_or(-1.);
    for s in snaps {
        match out.last_mut() {
            Some(o) if { let l = o.last().unwrap(); vis(&s) > vis(l) && s.len() >= l.len() && s[0].state == l[0].state } => o.push(s),
            _ => out.push(vec![s]),
        }
    }
    out
}
fn roots<T: DeserializeOwned>(s: &Search) -> Vec<T> {
    s[0].iter().filter(|n| n.parent.is_none()).filter_map(|n| serde_json::from_value(n.state.clone()).ok()).collect()
}
/// runs on a thread where every search can be seen
fn watched<R: Send>(f: impl FnOnce() -> R + Send) -> (Result<R, String>, Vec<Search>) {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    pool.install(|| { verif::start(); let r = guarded(f); (r, split(verif::take())) })
}
struct Sent<X>(X);
unsafe impl<X> Send for Sent<X> {}
impl<X> Sent<X> { fn get(self) -> X { self.0 } }

fn copy<T: LearnableGame>(n: &ResNet) -> ResNet { let mut c = ResNet::new::<T>(VarStore::new(*DEVICE)); c.vs.copy(&n.vs).unwrap(); c }

struct Run { kind: &'static str, searches: Vec<Search>, nets: [ResNet; 2], ok: bool }

/// self-play ("sp-par", "sp-seq"), matches ("mm": networks, "rr": rollouts, "mr"), an evaluation, single moves
fn run<T: LearnableGame + DeserializeOwned + Send + Sync + 'static>(kind: &'static str, cf: &Conf, seed: i64, gain: f64, start: T) -> Run {
    let nets = [0, 1].map(|k| nets::random::<T>(seed + k, gain, 4.));
    let given = Sent([copy::<T>(&nets[0]), copy::<T>(&nets[1])]);
    let (r, searches) = watched(move || {
        let [a, b] = given.get();
        let player = |k: char, n: ResNet| if k == 'm' { Player::new(Agent::Model, Some(n)) } else { Player::new(Agent::Mcts, None) };
        match kind {
            "sp-par" => { az::<T>(cf, a).self_play_parallel::<T>(); }
            "sp-seq" => { az::<T>(cf, a).self_play::<T>(); }
            "eval" => { az::<T>(cf, a).play_vs_model::<T>(b); }
            "moves" => {
                let z = az::<T>(cf, a);
                let mut s = start;
                for _ in 0..8 {
                    if s.check_winner().is_some() { break }
                    let m = z.get_next_move_for_state(&s);
                    if m == T::EMPTY_MOVE { s.skip_turn() } else { s.apply_move(&m) }
                }
            }
            k => { let mut c = k.chars(); let (x, y) = (c.next().unwrap(), c.next().unwrap()); play::<T>(player(x, a), player(y, b), &cf.mcts(), cf.temperature); }
        }
    });
    Run { kind, searches, nets, ok: r.is_ok() }
}
impl Run {
    /// how a search was made, and the network it was made with
    fn of<T: LearnableGame>(&self, rs: &[T]) -> (&'static str, &ResNet) {
        let first = rs[0].get_player() == -1;
        let side = |k: char| if k == 'm' { "batch" } else { "rollout" };
        match self.kind {
            "sp-par" => ("batch", &self.nets[0]),
            "sp-seq" | "moves" => ("single", &self.nets[0]),
            "eval" => ("batch", &self.nets[!first as usize]),
            k => (side(k.chars().nth(!first as usize).unwrap()), &self.nets[!first as usize]),
        }
    }
    fn records<T: LearnableGame + DeserializeOwned>(&self, game: &str, cf: &Conf, graph: Option<Value>, pick: &[usize]) -> Vec<Value> {
        pick.iter().filter_map(|&i| {
            let s = &self.searches[i];
            let rs: Vec<T> = roots(s);
            if rs.is_empty() { return None }
            let (mode, net) = self.of(&rs);
            let mut m = record(mode, game, &rs, net, cf, 1., s.clone(), json!({"ok": self.ok, "mi": -2, "rows": [], "nroots": rs.len()}), false);
            m.insert("use".into(), json!(format!("{} {}", self.kind, i)));
            if mode == "rollout" { if let Some(g) = &graph { m.insert("graph".into(), g.clone()); } }
            Some(Value::Object(m))
        }).collect()
    }
}

/// some of the searches: the first and last of a run, those of the outermost games, others at random
fn sample(rng: &mut StdRng, r: &Run, big: usize, small: usize) -> Vec<usize> {
    let n = r.searches.len();
    let (wide, narrow): (Vec<usize>, Vec<usize>) = (0..n).partition(|&i| r.searches[i][0].iter().filter(|v| v.parent.is_none()).count() > 1);
    let take = |rng: &mut StdRng, of: &[usize], k: usize| -> Vec<usize> {
        let mut v: Vec<usize> = of.choose_multiple(rng, k).cloned().collect();
        if k > 2 { v.extend(of.last()) }
        if k > 3 { v.extend(of.iter().filter(|&&i| [0, 199, 200, 399].contains(&r.searches[i][0][0].state["id"].as_u64().unwrap_or(1))).collect::<Vec<_>>().choose_multiple(rng, 3).map(|i| **i)) }
        v
    };
    let mut v = take(rng, &wide, big);
    v.extend(take(rng, &narrow, small));
    v.sort(); v.dedup();
    v
}

/// a line of play with every code offered everywhere
fn open_line(rng: &mut StdRng, n: usize) -> Graph {
    let mut g = line(rng, n, 1);
    for i in 0..n { g.v[i].mv = (0..ACTIONS as u8).collect(); g.v[i].to = vec![i as u32 + 1; ACTIONS as usize] }
    g
}
/// the first root alone, with its children
fn first_root(s: &[NodeView]) -> Vec<NodeView> {
    let mut out = vec![s[0].clone()];
    for (j, &k) in s[0].children.iter().enumerate() { if let Some(v) = s.get(k) { let mut v = v.clone(); v.parent = Some(0); out.push(v); out[0].children[j] = out.len() - 1; } }
    out
}
/// the noise of many searches, with all moves offered (games searched side by side share theirs)
pub fn noise(a: &Args) {
    let rng = &mut a.rng();
    let mut t = Trace::new(a.out());
    let mut n = 0;
    for i in a.part(a.num("n", 7)) {
        let (kind, late) = [("sp-par", false), ("mm", false), ("sp-seq", false), ("eval", false), ("sp-par", true), ("moves", false), ("sp-seq", true)][i % 7];
        let matched = kind == "mm" || kind == "eval";
        let mut heads: Vec<Value> = vec![];
        let (eps, alpha) = (*[0.25, 0.4, 0.6].choose(rng).unwrap(), *[0.1, 0.3, 1.].choose(rng).unwrap());
        for _ in 0..100 {
            if heads.len() >= if matched { 120 } else { 240 } { break }
            let len = if late || matched { 22 } else { 7 };
            let cf = Conf { iterations: 1, eps, alpha, num_self_play_batches: rng.gen_range(1..4), limit: 400, ..Conf::default() };
            set_start(None);
            let x = open_line(rng, len);
            let g = if matched { let y = open_line(rng, len); twin(x, y) } else { x };
            let g = set_graph(g);
            let r = run::<Script>(kind, &cf, rng.gen_range(1..10000), 1., Script::at(g.start, 0));
            let k = r.searches.len();
            if k == 0 { heads.push(json!({"ok": false, "pol": [], "mi": [], "pri": []})); break }
            for i in if late { k / 2..k } else if matched { 0..k } else { 0..k.min(4) } {
                let s = vec![first_root(&r.searches[i][0])];
                let rs: Vec<Script> = roots(&s);
                let (mode, net) = r.of(&rs);
                let m = record(mode, "script", &rs, net, &cf, 1., s, json!({}), false);
                heads.push(json!({"ok": r.ok, "pol": m["pol0"][0]["pol"], "mi": m["init"].as_array().unwrap()[1..].iter().map(|x| x["mi"].clone()).collect::<Vec<_>>(),
                    "pri": m["init"].as_array().unwrap()[1..].iter().map(|x| x["pri"].clone()).collect::<Vec<_>>()}));
            }
        }
        n += heads.len();
        t.put(&json!({"noise": format!("{kind}{}", if late { " late" } else { "" }), "eps": micro(eps), "alpha": (alpha * 100.0f64).round() as i64, "heads": heads}));
    }
    println!("\n{}", json!({"records": t.done(), "roots": n}));
}

pub fn uses(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 20);
    let only: Option<&str> = a.get("only");      // "batch": searches of several positions
    let mut t = Trace::new(a.out());
    let (mut seen, mut recorded) = (0, 0);
    let kinds: &[&'static str] = if only == Some("batch") { &["sp-par", "mm", "sp-par", "eval", "mr"] } else { &["sp-par", "rr", "sp-seq", "mm", "moves", "mr", "sp-par", "eval", "rr", "rm"] };
    for i in a.part(n) {
        let kind = kinds[i % kinds.len()];
        let matched = !kind.starts_with("sp") && kind != "moves";
        let mut cf = Conf { iterations: rng.gen_range(1..=if matched { 8 } else { 30 }), c: *[2.0, 1.0, 0.5, 4.0, 0.1, 0.02, 16.0].choose(&mut rng).unwrap(), eps: *[0.25, 0.5, 0., 0.8].choose(&mut rng).unwrap(),
            limit: *[3, 12, 400, 1000].choose(&mut rng).unwrap(), num_self_play_batches: rng.gen_range(1..=6), temperature: *[1.0, 0.3, 3.].choose(&mut rng).unwrap(), ..Conf::default() };
        let (seed, gain) = (rng.gen_range(1..1000000), *[1., 8., 30.].choose(&mut rng).unwrap());
        let (big, small) = if matched { (1, 6) } else { (5, 6) };
        let rs = if i % 7 == 3 {
            set_start(None);
            cf.iterations = cf.iterations.min(if matched { 2 } else { 12 });
            cf.num_self_play_batches = 3;
            let r = run::<Small<TicTacToe>>(kind, &cf, seed, gain, Small::new());
            seen += r.searches.len();
            let pick = sample(&mut rng, &r, if matched { 1 } else { 3 }, small);
            r.records::<Small<TicTacToe>>("ttt", &cf, None, &pick)
        } else {
            let long = rng.gen_bool(0.35);
            let g = if long {
                // games of many turns
                let l = if kind == "rr" || kind == "mr" || kind == "rm" { rng.gen_range(20..70) } else { rng.gen_range(20..70) };
                cf.iterations = cf.iterations.min(if matched { 1 } else { 4 });
                if rng.gen() { cf.limit = cf.limit.max(400) }
                let w = *[-1, 1].choose(&mut rng).unwrap();
                let (mut x, mut y) = (line(&mut rng, l, w), line(&mut rng, l, -w));
                if matched { twin(x, y) } else { fork(&mut rng, &mut x, 0, 0.3); let _ = &mut y; x }
            } else {
                let (d, w, m) = (rng.gen_range(2..7), rng.gen_range(2..5), rng.gen_range(2..6));
                let x = playable(&mut rng, d, w, m, false);
                let mut y = playable(&mut rng, d, w, m, false);
                if matched { twin(x, y) } else if kind == "sp-seq" {
                    for v in y.v.iter_mut() { if v.w.is_none() && v.mv.is_empty() { v.mv = vec![3]; v.to = vec![v.pass]; } }
                    y
                } else { x }
            };
            let g = set_graph(g);
            let r = run::<Script>(kind, &cf, seed, gain, Script::at(g.start, 0));
            seen += r.searches.len();
            let pick = sample(&mut rng, &r, big, small);
            r.records::<Script>("script", &cf, Some(g.json()), &pick)
        };
        for mut m in rs { m["seed"] = json!(i); recorded += 1; t.put(&m) }
    }
    println!("\n{}", json!({"records": t.done(), "searches": seen, "recorded": recorded}));
}
