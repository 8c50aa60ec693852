//! Whole matches of tic-tac-toe from the command line, and all positions they can pass through with the
//! visits that the search of the side to move leaves behind there.
use crate::{cli::{die_e_said, words}, learn::scratch, nets, util::*};
use die_e::{alphazero::nnet::ResNet, base::LearnableGame, mcts::{alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, tictactoe::TicTacToe, versus::{load_all_games, Agent}};
use rand::prelude::*;
use serde_json::{json, Value};
use std::{collections::HashMap, fs};

#[derive(Clone)]
struct Place { end: Option<i8>, p: i8, n: Vec<i64>, to: Vec<usize> }
type Layers = Vec<Vec<Place>>;
const MOST: usize = 400;

fn visits(states: &[TicTacToe], net: &ResNet, cf: &Conf) -> Vec<HashMap<u32, i64>> {
    if states.is_empty() { return vec![]; }
    let m = cf.mcts();
    let mut store = NodeStore::new();
    alpha_mcts_parallel(&mut store, states, net, &m, None);
    store.get_root_nodes().iter().enumerate().map(|(i, r)| r.children.iter().map(|&c| {
        let v = store.get_node_ref(c);
        (states[i].encode(v.action_taken.as_ref().unwrap()), v.visits.round() as i64)
    }).collect()).collect()
}
/// every position a match can reach; nets[0] plays -1, nets[1] plays 1, no network: any move
fn reach(nets: [Option<&ResNet>; 2], cf: &Conf) -> Option<Layers> {
    let begin = TicTacToe::new();
    let mut other = begin;
    other.skip_turn();
    let mut at: Vec<TicTacToe> = vec![begin, other];
    let mut all: Layers = vec![];
    let mut size = 0;
    while !at.is_empty() {
        size += at.len();
        if size > MOST || all.len() > 9 { return None; }
        let mut layer: Vec<Place> = at.iter().map(|s| Place { end: s.check_winner(), p: s.get_player(), n: vec![], to: vec![] }).collect();
        let mut next: Vec<TicTacToe> = vec![];
        let mut seen: HashMap<String, usize> = HashMap::new();
        for (side, net) in [(-1i8, nets[0]), (1, nets[1])] {
            let who: Vec<usize> = (0..at.len()).filter(|&i| layer[i].end.is_none() && layer[i].p == side).collect();
            let vis: Vec<Option<HashMap<u32, i64>>> = match net {
                Some(net) => visits(&who.iter().map(|&i| at[i]).collect::<Vec<_>>(), net, cf).into_iter().map(Some).collect(),
                None => who.iter().map(|_| None).collect(),
            };
            for (i, v) in who.into_iter().zip(vis) {
                for m in at[i].get_valid_moves() {
                    let n = v.as_ref().map(|v| v.get(&at[i].encode(&m)).copied().unwrap_or(0)).unwrap_or(1);
                    if n == 0 { continue; }
                    let mut s = at[i];
                    s.apply_move(&m);
                    let k = *seen.entry(json!(s).to_string()).or_insert_with(|| { next.push(s); next.len() - 1 });
                    layer[i].n.push(n);
                    layer[i].to.push(k);
                }
            }
        }
        all.push(layer);
        at = next;
    }
    Some(all)
}
/// chances that -1 and that 1 wins, either side beginning half of the games; only to choose telling matches
fn odds(l: &Layers, temp: f64) -> [f64; 2] {
    let mut after: Vec<[f64; 2]> = vec![];
    for layer in l.iter().rev() {
        after = layer.iter().map(|x| match x.end {
            Some(w) => [(w == -1) as i64 as f64, (w == 1) as i64 as f64],
            None => {
                let mx = *x.n.iter().max().unwrap() as f64;
                let w: Vec<f64> = x.n.iter().map(|k| (*k as f64 / mx).powf(1. / temp)).collect();
                let s: f64 = w.iter().sum();
                let of = |q: usize| w.iter().zip(&x.to).map(|(w, t)| w / s * after[*t][q]).sum::<f64>();
                [of(0), of(1)]
            }
        }).collect();
    }
    [(after[0][0] + after[1][0]) / 2., (after[0][1] + after[1][1]) / 2.]
}
fn far(a: [f64; 2], b: [f64; 2]) -> f64 { [a[0] - b[0], a[1] - b[1], a[0] + a[1] - b[0] - b[1]].iter().map(|x| x.abs()).fold(0., f64::max) }

pub fn outcomes(a: &Args) {
    let mut rng = a.rng();
    let (n, runs) = (a.num("n", 6), a.num("runs", 2));
    let cli = a.str("cli");
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    let mut places = 0;
    const TEMPS: [(f64, i64, i64); 6] = [(0.25, 4, 1), (0.1, 10, 1), (4., 1, 4), (0.5, 2, 1), (16., 1, 16), (2., 1, 2)];
    for i in a.part(n) {
        let r = &mut rng;
        let kind = 0;                   // both model (1: model against random, 2: random against model, far larger)
        let (temp, inv, by) = TEMPS[if i % 2 == 0 { *[0, 1, 3].choose(r).unwrap() } else { *[2, 4, 5].choose(r).unwrap() }];
        let mut best: Option<(f64, Conf, [i64; 2], [(f64, f64); 2], Layers)> = None;
        for _ in 0..40 {
            let cf = Conf { iterations: r.gen_range(3..9), eps: 0., temperature: temp, c: *[1., 2., 5.].choose(r).unwrap(), ..Conf::default() };
            let seeds = [r.gen_range(1..1000000), r.gen_range(1..1000000)];
            let gains = [(*[4., 8., 16.].choose(r).unwrap(), *[1., 3.].choose(r).unwrap()), (*[4., 8., 16.].choose(r).unwrap(), *[1., 3.].choose(r).unwrap())];
            let net = |k: usize| nets::random::<TicTacToe>(seeds[k], gains[k].0, gains[k].1);
            let (x, y) = (net(0), net(1));
            let of = |x, y| reach(match kind { 0 => [Some(x), Some(y)], 1 => [Some(x), None], _ => [None, Some(y)] }, &cf);
            let Some(l) = of(&x, &y) else { continue };
            let plain = far(odds(&l, temp), odds(&l, 1.));
            if best.as_ref().map(|b| b.0 >= plain).unwrap_or(false) { continue }
            // other networks would be noticed too
            let swapped = of(&y, &x).map(|m| far(odds(&l, temp), odds(&m, temp))).unwrap_or(plain);
            let worth = plain.min(swapped);
            if best.as_ref().map(|b| b.0 < worth).unwrap_or(true) { best = Some((worth, cf, seeds, gains, l)); }
            if worth > 0.2 { break }
        }
        let Some((worth, cf, seeds, gains, l)) = best else { continue };
        let dir = scratch(&root, i);
        // two files, mostly of the same name in two folders
        let file = |k: usize| if i % 3 == 1 { format!("net{k}.ot") } else { format!("d{k}/best_model.ot") };
        for k in 0..2 { let _ = fs::create_dir_all(dir.join(format!("d{k}"))); nets::random::<TicTacToe>(seeds[k], gains[k].0, gains[k].1).vs.save(dir.join(file(k))).unwrap(); }
        fs::write(dir.join("conf"), cf.toml()).unwrap();
        let (mut won, mut lost, mut drawn, mut decided, mut said, mut ok) = (0usize, 0usize, 0usize, 0usize, true, true);
        for k in 0..runs {
            let out = format!("out{k}");
            fs::create_dir_all(dir.join(&out)).unwrap();
            let (one, two) = match kind { 0 => ("model", "model"), 1 => ("model", "random"), _ => ("random", "model") };
            let (res, text) = die_e_said(cli, &dir, &words(&["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "play", "--agent-one", one, "--agent-two", two, "--model-path-one", &file(0), "--model-path-two", &file(1), "-o", &out]), "");
            ok &= res.ok;
            let games = guarded(|| load_all_games::<TicTacToe>(dir.join(&out)).map_err(|e| e.to_string())).unwrap_or(Err("".into())).unwrap_or_default();
            drawn += games.iter().filter(|g| g.winner == Agent::None).count();
            decided += games.iter().filter(|g| g.winner != Agent::None).count();
            if kind == 0 {
                // who won is only printed
                let num = |key: &str| text.lines().find_map(|l| l.trim().strip_prefix(key)?.trim_start_matches(':').trim().parse::<usize>().ok());
                match (num("Wins Player 1"), num("Wins Player 2")) { (Some(x), Some(y)) if x + y <= games.len() => { won += x; lost += y } _ => said = false }
            } else {
                let mine = games.iter().filter(|g| g.winner == if kind == 1 { Agent::Model } else { Agent::Random }).count();
                won += mine;
                lost += games.iter().filter(|g| g.winner == if kind == 1 { Agent::Random } else { Agent::Model }).count();
            }
        }
        places += l.iter().map(|x| x.len()).sum::<usize>();
        let layers: Vec<Vec<Value>> = l.iter().map(|l| l.iter().map(|x| json!({"e": x.end.unwrap_or(2), "p": x.p, "n": x.n, "to": x.to.iter().map(|k| k + 1).collect::<Vec<_>>()})).collect()).collect();
        t.put(&json!({"how": "outcome", "a": inv, "b": by, "kind": kind, "telling": (worth * 1e4) as i64, "ok": ok, "said": said, "won": won, "lost": lost, "drawn": drawn, "decided": decided, "layers": layers}));
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"matches": t.done(), "places": places}));
}
