//! What is kept in files: data sets, models, games.
use crate::{bg, games::*, learn::scratch, nets, selfplay::az, util::*};
use die_e::{
    alphazero::{alphazero::{AlphaZero, MemoryFragment}, nnet::ResNet}, backgammon::backgammon_logic::Backgammon, base::LearnableGame, constants::DEVICE,
    tictactoe::TicTacToe, versus::{load_all_games, load_game, play, save_game, Agent, Game, Player, Turn},
};
use rand::prelude::*;
use serde_json::{json, Value};
use std::{collections::HashMap, fs, path::{Path, PathBuf}};
use tch::{nn::VarStore, Tensor};

/// numbers for things, equal things have equal numbers
#[derive(Default)]
pub struct Ids { map: HashMap<String, usize> }
impl Ids { pub fn of(&mut self, k: String) -> usize { let n = self.map.len() + 1; *self.map.entry(k).or_insert(n) } }
fn bits(t: &Tensor) -> String { nets::floats(t).iter().map(|x| format!("{:x},", x.to_bits())).collect() }

// ---- data sets --------------------------------------------------------------
fn sample(ids: &mut Ids, m: &MemoryFragment) -> Value { json!([m.outcome, ids.of(bits(&m.ps)), ids.of(bits(&m.state))]) }

/// samples as self-play makes them: states with a leading dimension of one
fn fragments<T: LearnableGame>(rng: &mut StdRng, n: usize, pos: impl Fn(&mut StdRng) -> T) -> Vec<MemoryFragment> {
    (0..n).map(|_| {
        let s = pos(rng);
        let mut p: Vec<f32> = vec![0.; T::ACTION_SPACE_SIZE as usize];
        match rng.gen_range(0..4) {
            0 => { let k = rng.gen_range(0..p.len()); p[k] = 1. }
            1 => { let k = p.len() as f32; p.iter_mut().for_each(|x| *x = 1. / k) }
            _ => { for _ in 0..rng.gen_range(1..6) { let k = rng.gen_range(0..p.len()); p[k] = rng.gen::<f32>(); } let t: f32 = p.iter().sum(); p.iter_mut().for_each(|x| *x /= t) }
        }
        MemoryFragment { outcome: rng.gen_range(-1..=1), ps: Tensor::from_slice(&p), state: s.as_tensor() }
    }).collect()
}
pub fn ttt_position(rng: &mut StdRng) -> Small<TicTacToe> {
    let mut g = TicTacToe::new();
    for _ in 0..rng.gen_range(0..9) { if g.check_winner().is_some() { break } let m = g.get_valid_moves(); g.apply_move(m.choose(rng).unwrap()); }
    Small { g }
}
fn some_fragments(rng: &mut StdRng, kind: usize, n: usize) -> Vec<MemoryFragment> {
    match kind {
        0 => fragments(rng, n, |r| { let v = r.gen_range(0..graph().v.len() as u32); Script { v, lane: r.gen_range(0..500), ply: r.gen_range(0..50), id: 0 } }),
        1 => fragments(rng, n, ttt_position),
        _ => fragments(rng, n, |r| { let f = r.gen_range(0..12); Small { g: bg::random_position(r, f) } }),
    }
}

pub fn dataset(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 60);
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    let mut total = 0;
    for i in a.part(n) {
        let dir = scratch(&root, i);
        let g = layered(&mut rng, 3, 3, 3);
        set_graph(g);
        let z = az::<Script>(&Conf::default(), nets::random::<Script>(1, 1., 1.));
        let mut ids = Ids::default();
        let mut ev = vec![];
        // folders are written, read, and written again
        for _ in 0..rng.gen_range(1..6) {
            let d = rng.gen_range(0..3);
            let p = dir.join(format!("d{d}"));
            let _ = fs::create_dir(&p);
            if rng.gen_bool(0.7) {
                let k = if rng.gen_bool(0.35) { 1 } else if rng.gen_bool(0.08) { rng.gen_range(300..900) } else { rng.gen_range(2..40) };
                let mut kind = rng.gen_range(0..3);
                // as many as self-play leaves behind
                let k = if i == 3 && total < 5000 { kind = 1; rng.gen_range(4097..6000) } else { k };
                let mut data = some_fragments(&mut rng, kind, k);
                if rng.gen_bool(0.2) { let j = rng.gen_range(0..data.len()); for x in 0..data.len() { if rng.gen() { data[x] = MemoryFragment { outcome: data[j].outcome, ps: data[j].ps.shallow_clone(), state: data[j].state.shallow_clone() } } } }
                let sm: Vec<Value> = data.iter().map(|m| sample(&mut ids, m)).collect();
                let r = guarded(|| z.save_training_data(&data, &p));
                // saving leaves the samples alone
                let after: Vec<Value> = data.iter().map(|m| sample(&mut ids, m)).collect();
                total += sm.len();
                ev.push(json!({"op": "save", "d": d, "ok": r.is_ok() && after == sm, "data": sm}));
            }
            if p.join("ps.ot").exists() || ev.iter().any(|e: &Value| e["d"] == json!(d)) {
                let r = guarded(|| AlphaZero::load_training_data(&p));
                let sm: Vec<Value> = r.as_ref().map(|d| d.iter().map(|m| sample(&mut ids, m)).collect()).unwrap_or_default();
                ev.push(json!({"op": "load", "d": d, "ok": r.is_ok(), "data": sm}));
            }
        }
        t.put(&json!({"k": "dataset", "ev": ev}));
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"histories": t.done(), "samples_saved": total}));
}

// ---- models -----------------------------------------------------------------
fn outputs<T: LearnableGame>(net: &ResNet, probes: &[T]) -> String {
    tch::no_grad(|| probes.iter().map(|s| { let (p, v) = net.forward_t(&s.as_tensor().to_device(*DEVICE), false); bits(&p) + &bits(&v) + &bits(&net.forward_policy(&s.as_tensor().to_device(*DEVICE), false)) }).collect())
}
fn models_of<T: LearnableGame>(game: &str, rng: &mut StdRng, dir: &Path, probes: &[T], other: &dyn Fn(&Path)) -> Value {
    let mut ids = Ids::default();
    let mut ev: Vec<Value> = vec![];
    let best = format!("models/{}/best_model.ot", T::name());
    fs::create_dir_all(format!("models/{}", T::name())).unwrap();
    let paths: Vec<String> = vec!["a.ot".into(), "sub dir/b.ot".into(), best.clone()];
    fs::create_dir_all("sub dir").unwrap();
    // other models lie around
    for f in ["trained_model.ot", "model_0.ot", "model_1.ot", "best_model_old.ot", "best.ot"] { if rng.gen() { nets::random::<T>(rng.gen_range(1..1000000), 6., 3.).vs.save(format!("models/{}/{f}", T::name())).unwrap() } }
    if rng.gen() { nets::random::<T>(rng.gen_range(1..1000000), 6., 3.).vs.save("best_model.ot").unwrap() }
    for step in 0..rng.gen_range(4..10) {
        let k = rng.gen_range(0..3);
        let p = PathBuf::from(&paths[k]);
        let cf = Conf { lr: 1e-5, training_batch_size: 4, ..Conf::default() };
        match if step == 0 { 0 } else { rng.gen_range(0..9) } {
            0..=2 => {
                let net = nets::random::<T>(rng.gen_range(1..1000000), 6., 3.);
                let id = ids.of(outputs(&net, probes));
                let r = if rng.gen() { guarded(|| net.vs.save(&p).is_ok()) } else {
                    let mut z = None; // through the training object
                    let r = guarded(|| { let mut x = AlphaZero::from_config::<T>(Some(dir.join("base.ot")), &cf.config()); x.model.vs.copy(&net.vs).unwrap(); let ok = x.save_current_model(&p).is_ok(); z = Some(()); ok });
                    let _ = z; r };
                ev.push(json!({"op": "save", "p": k + 1, "id": id, "ok": r == Ok(true)}));
            }
            3 => {
                let how = rng.gen_range(0..7);
                match how {
                    0 => { let _ = fs::remove_file(&p); }
                    1 => fs::write(&p, b"this is not a model").unwrap(),
                    2 => fs::write(&p, b"").unwrap(),
                    3 => { let b = fs::read(&p).unwrap_or_default(); fs::write(&p, &b[..b.len() / 2]).unwrap() }
                    4 => other(&p),
                    // some of a network's variables are not there
                    _ => {
                        let vars = nets::random::<T>(rng.gen_range(1..1000000), 6., 3.).vs.variables();
                        let mut keep: Vec<(String, Tensor)> = vars.into_iter().collect();
                        keep.sort_by(|a, b| a.0.cmp(&b.0));
                        if how == 5 { let _ = keep.remove(rng.gen_range(0..keep.len())); } else { keep.shuffle(rng); let n = rng.gen_range(1..keep.len()); keep.truncate(n); }
                        Tensor::save_multi(&keep, &p).unwrap();
                    }
                }
                ev.push(json!({"op": "spoil", "p": k + 1, "how": how}));
            }
            4 | 5 => {
                let r = guarded(|| ResNet::from_path::<T>(&p));
                ev.push(json!({"op": "load", "p": k + 1, "id": r.map(|n| ids.of(outputs(&n, probes))).unwrap_or(0)}));
            }
            x => {
                // learning goes on from the loaded weights
                let given = x != 6;
                let path = if given { k + 1 } else { 3 };
                let r = guarded(|| {
                    let mut z = AlphaZero::from_config::<T>(if given { Some(p.clone()) } else { None }, &cf.config());
                    let id = outputs(&z.model, probes);
                    let before: HashMap<String, Tensor> = z.model.vs.variables().into_iter().map(|(k, v)| (k, v.copy())).collect();
                    let mut data: Vec<MemoryFragment> = probes.iter().map(|s| MemoryFragment { outcome: 1, ps: Tensor::ones([T::ACTION_SPACE_SIZE], (tch::Kind::Float, tch::Device::Cpu)) / T::ACTION_SPACE_SIZE as f64, state: s.as_tensor() }).collect();
                    z.train(&mut data);
                    let (mut far, mut still) = (0f64, true);
                    for (k, v) in z.model.vs.variables() { if !k.starts_with("running") { let d = (&v - &before[&k]).abs().max().double_value(&[]); far = far.max(d); if d > 0. { still = false } } }
                    (id, !still, far < 1e-3)
                });
                ev.push(match r { Err(_) => json!({"op": if given { "begin" } else { "default" }, "p": path, "id": 0, "moved": true, "near": true}),
                    Ok((o, m, n)) => json!({"op": if given { "begin" } else { "default" }, "p": path, "id": ids.of(o), "moved": m, "near": n}) });
            }
        }
    }
    json!({"k": "models", "game": game, "ev": ev})
}
pub fn models(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 20);
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    let mut events = 0;
    for i in a.part(n) {
        let dir = scratch(&root, i);
        let g = layered(&mut rng, 3, 3, 3);
        set_graph(g);
        // a model of another game does not fit
        let ttt_net = |p: &Path| nets::random::<Small<TicTacToe>>(3, 1., 1.).vs.save(p).unwrap();
        let script_net = |p: &Path| nets::random::<Script>(3, 1., 1.).vs.save(p).unwrap();
        let rec = match i % 8 {
            0 => { nets::random::<TicTacToe>(1, 1., 1.).vs.save(dir.join("base.ot")).unwrap();
                let pr: Vec<TicTacToe> = (0..3).map(|_| ttt_position(&mut rng).g).collect(); models_of("ttt64", &mut rng, &dir, &pr, &script_net) }
            1 | 2 => { nets::random::<Small<Backgammon>>(1, 1., 1.).vs.save(dir.join("base.ot")).unwrap();
                let pr: Vec<Small<Backgammon>> = (0..4).map(|f| Small { g: bg::random_position(&mut rng, f) }).collect(); models_of("bg", &mut rng, &dir, &pr, &ttt_net) }
            3 | 4 => { nets::random::<Small<TicTacToe>>(1, 1., 1.).vs.save(dir.join("base.ot")).unwrap();
                let pr: Vec<Small<TicTacToe>> = (0..5).map(|_| ttt_position(&mut rng)).collect(); models_of("ttt", &mut rng, &dir, &pr, &script_net) }
            _ => { nets::random::<Script>(1, 1., 1.).vs.save(dir.join("base.ot")).unwrap();
                let pr: Vec<Script> = (0..6).map(|v| Script::at(v, v)).collect(); models_of("script", &mut rng, &dir, &pr, &ttt_net) }
        };
        events += rec["ev"].as_array().unwrap().len();
        t.put(&rec);
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"histories": t.done(), "events": events}));
}

// ---- one training pass ------------------------------------------------------
/// Only its dimensions matter: positions are 3 planes of DxD
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct Plain<const D: usize>;
impl<const D: usize> LearnableGame for Plain<D> {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 7;
    const N_INPUT_CHANNELS: i64 = 3;
    const CONV_OUTPUT_SIZE: i64 = (D * D) as i64;
    const N_FILTERS: i64 = 3;
    const N_RES_BLOCKS: i64 = 0;
    fn new() -> Self { Plain }
    fn name() -> String { "plain".into() }
    fn get_valid_moves(&self) -> Vec<u8> { vec![] }
    fn apply_move(&mut self, _: &u8) {}
    fn skip_turn(&mut self) {}
    fn get_player(&self) -> i8 { 1 }
    fn check_winner(&self) -> Option<i8> { None }
    fn as_tensor(&self) -> Tensor { Tensor::zeros([1, 3, D as i64, D as i64], (tch::Kind::Float, tch::Device::Cpu)) }
    fn decode(&self, c: u32) -> u8 { c as u8 }
    fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { 0 }
    fn set_id(&mut self, _: usize) {}
    fn to_pretty_str(&self) -> String { String::new() }
}
/// passes its input through to both heads, whose last layers are empty
fn passing<const D: usize>() -> ResNet {
    let net = ResNet::new::<Plain<D>>(VarStore::new(*DEVICE));
    tch::no_grad(|| for (name, mut t) in net.vs.variables() {
        let s = t.size();
        if s.len() == 4 {
            let mut w = vec![0f32; (s[0] * s[1] * 9) as usize];
            for f in 0..s[0].min(s[1]) { w[((f * s[1] + f) * 9 + 4) as usize] = 1.; }
            t.copy_(&Tensor::from_slice(&w).view([s[0], s[1], 3, 3]));
        } else if s.len() == 2 || name.starts_with("bias") { let _ = t.zero_(); }
        else if name.starts_with("weight") { let _ = t.fill_(1.); }
    });
    net
}
/// Where Adam takes a weight that has a gradient at step `s` of `t` only, in units of the learning rate
fn displacement(s: usize, t: usize, uses: &[usize]) -> f64 {
    let (mut m, mut v, mut d) = (0f64, 0f64, 0f64);
    for k in 1..=t {
        let g = uses.iter().filter(|&&u| u == k).count() as f64 + if s == k { 1. } else { 0. };
        m = 0.9 * m + 0.1 * g; v = 0.999 * v + 0.001 * g * g;
        let (mh, vh) = (m / (1. - 0.9f64.powi(k as i32)), v / (1. - 0.999f64.powi(k as i32)));
        if vh > 0. { d += mh / vh.sqrt(); }
    }
    d
}
pub fn trainpass(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 60);
    let mut t = Trace::new(a.out());
    let mut total = 0;
    for i in a.part(n) {
        // now and then as many samples as a real run has
        let big = i % 40 == 20;
        let b = if big { *[200, 256, 300, 512, 1000, 1024, 4096].choose(&mut rng).unwrap() } else if rng.gen_bool(0.3) { rng.gen_range(1..=96) } else { *[1, 2, 3, 5, 8, 16, 32, 33, 40, 64, 65, 96, 128, 200].choose(&mut rng).unwrap() };
        // often just around a whole number of batches
        let whole = b * rng.gen_range(1..=4);
        let len = if big { rng.gen_range(1025..3000) } else if i % 7 == 6 { 1 } else if rng.gen_bool(0.5) && whole < 190 { (whole + rng.gen_range(0..3)).max(2) - 1 } else { rng.gen_range(1..=(b * 9).min(190)) };
        let dir = scratch(&a.out().with_extension("dir"), i);
        t.put(&if big { pass::<32>(&mut rng, b, len) } else { pass::<8>(&mut rng, b, len) });
        total += len;
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(a.out().with_extension("dir"));
    println!("\n{}", json!({"passes": t.done(), "samples": total}));
}
fn pass<const D: usize>(rng: &mut StdRng, b: usize, len: usize) -> Value {
    let lr = 1e-12;
    let side = D as i64;
    let steps = (len + b - 1) / b;
    let cf = Conf { training_batch_size: b, lr, wd: 0., ..Conf::default() };
    let loaded = rng.gen_bool(0.3);
    let shape = if loaded { vec![3i64, side, side] } else { vec![1i64, 3, side, side] };
    // the sample's cell, target and outcome
    let mut cells: Vec<usize> = (0..3 * D * D).collect();
    cells.shuffle(rng);
    let want: Vec<(usize, usize, i8)> = (0..len).map(|j| (cells[j], rng.gen_range(0..7), *[-1, 1, 1, -1, 0].choose(rng).unwrap())).collect();
    let mut data: Vec<MemoryFragment> = want.iter().map(|&(c, p, z)| {
        let mut st = vec![0f32; 3 * D * D]; st[c] = 1.;
        let mut ps = vec![0f32; 7]; ps[p] = 1.;
        MemoryFragment { outcome: z, ps: Tensor::from_slice(&ps), state: Tensor::from_slice(&st).view(&shape[..]) }
    }).collect();
    passing::<D>().vs.save("net.ot").unwrap();
    let r = guarded(|| {
        let mut z = AlphaZero::from_config::<Plain<D>>(Some(PathBuf::from("net.ot")), &cf.config());
        z.train(&mut data);
        let vars = z.model.vs.variables();
        let find = |s: &[i64]| vars.values().find(|v| v.size() == s).map(nets::floats).unwrap();
        (find(&[7, 32 * side * side]), find(&[1, 3 * side * side]))
    });
    let table: Vec<f64> = (1..=steps).map(|s| displacement(s, steps, &[])).collect();
    // step, target, outcome each sample's cell was trained with
    let got: Vec<Value> = match &r { Err(_) => vec![], Ok((pw, vw)) => want.iter().map(|&(c, _, _)| {
        let step = |d: f64| table.iter().position(|x| (x - d.abs() / lr).abs() < 1e-3 * x).map(|x| x + 1).unwrap_or(0);
        let w: Vec<f64> = (0..7).map(|a| pw[a * 32 * D * D + c]).collect();
        let steps: Vec<usize> = w.iter().map(|d| step(*d)).collect();
        let up: Vec<usize> = (0..7).filter(|&a| w[a] > 0.).collect();
        let s = if steps.iter().all(|x| *x == steps[0]) { steps[0] } else { 0 };
        let v = vw[c];
        let vs = step(v);
        json!([s, if up.len() == 1 { up[0] as i64 } else { -1 }, if vs == s && s > 0 { v.signum() as i64 } else if v.abs() < lr * 0.02 { 0 } else { 9 }])
    }).collect() };
    let expect: Vec<Value> = want.iter().map(|&(c, p, z)| json!([c, p, z])).collect();
    let kept: Vec<Value> = data.iter().map(|m| {
        let f = nets::floats(&m.state); let p = nets::floats(&m.ps);
        let at = |x: &[f64]| x.iter().position(|v| *v == 1.).filter(|_| x.iter().filter(|v| **v != 0.).count() == 1).map(|v| v as i64).unwrap_or(-1);
        json!([at(&f), at(&p), m.outcome])
    }).collect();
    json!({"k": "pass", "ok": r.is_ok(), "b": b, "loaded": loaded, "want": expect, "got": got, "kept": kept})
}

// ---- saved games ------------------------------------------------------------
fn agent(rng: &mut StdRng) -> Agent { [Agent::Random, Agent::Mcts, Agent::Model, Agent::None][rng.gen_range(0..4)].clone() }
pub fn parts<T: LearnableGame>(ids: &mut Ids, g: &Game<T>) -> Value {
    // the Debug form holds every field
    json!({"all": ids.of(format!("{g:?}")), "turns": g.turns.len(), "win": format!("{:?}", g.winner).to_ascii_lowercase()})
}
fn games_of<T: LearnableGame>(rng: &mut StdRng, dir: &Path, pos: &dyn Fn(&mut StdRng) -> T) -> Value {
    let mut ids = Ids::default();
    let mut ev: Vec<Value> = vec![];
    let folders: Vec<PathBuf> = ["one", "two words"].iter().map(|x| dir.join(x)).collect();
    for f in &folders { fs::create_dir_all(f).unwrap(); }
    fs::write(folders[0].join("notes.txt"), "not a game").unwrap();
    fs::create_dir_all(folders[1].join("deep.json")).unwrap();
    let mut all: Vec<Game<T>> = vec![];
    for _ in 0..rng.gen_range(4..14) {
        let f = rng.gen_range(0..2);
        match rng.gen_range(0..6) {
            0..=2 => {
                let new = all.is_empty() || rng.gen_bool(0.8);
                let k = if new {
                    let mut g = Game::new(agent(rng), agent(rng), pos(rng));
                    for _ in 0..*[0, 1, 5, 40, 0, 1, 5, 40, 600].choose(rng).unwrap() {
                        g.turns.push(Turn { roll: if rng.gen() { Some((rng.gen_range(1..7), rng.gen_range(1..7))) } else { None }, action: (0..rng.gen_range(0..3)).map(|_| pos(rng)).collect(), player: agent(rng) });
                    }
                    g.winner = agent(rng);
                    all.push(g); all.len() - 1
                } else { let k = rng.gen_range(0..all.len()); all[k].winner = agent(rng); if rng.gen() { let h = all[k].turns.len() / 2; all[k].turns.truncate(h) } k };
                let r = guarded(|| save_game(&all[k], folders[f].to_str().unwrap()).is_ok());
                ev.push(json!({"op": "save", "f": f + 1, "g": k + 1, "ok": r == Ok(true), "as": parts(&mut ids, &all[k])}));
            }
            3 | 4 => {
                let r = guarded(|| load_all_games::<T>(folders[f].clone()).map_err(|e| e.to_string()));
                let (ok, v) = match r { Ok(Ok(v)) => (true, v.iter().map(|g| parts(&mut ids, g)).collect()), _ => (false, vec![]) };
                ev.push(json!({"op": "loadall", "f": f + 1, "ok": ok, "got": v}));
            }
            _ => {
                let mut js: Vec<PathBuf> = fs::read_dir(&folders[f]).unwrap().flatten().map(|e| e.path()).filter(|p| p.is_file() && p.extension().map(|x| x == "json").unwrap_or(false)).collect();
                js.sort();
                for p in js { let r = guarded(|| load_game::<T>(p.clone()).map_err(|e| e.to_string()));
                    if let Ok(Ok(g)) = r { ev.push(json!({"op": "load", "f": f + 1, "ok": true, "as": parts(&mut ids, &g)})) }
                    else { ev.push(json!({"op": "load", "f": f + 1, "ok": false})) } }
            }
        }
    }
    json!({"k": "games", "ev": ev})
}
/// a real match saved game by game, as the play command does
fn match_saved<T: LearnableGame>(dir: &Path) -> Value {
    let mut ids = Ids::default();
    let cf = Conf { iterations: 2, limit: 5, ..Conf::default() };
    let r = guarded(|| play::<T>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &cf.mcts(), 1.));
    let Ok(r) = r else { return json!({"k": "match", "ok": false, "saved": [], "got": []}) };
    fs::create_dir_all(dir.join("out")).unwrap();
    let ok = r.games.iter().all(|g| guarded(|| save_game(g, dir.join("out").to_str().unwrap()).is_ok()) == Ok(true));
    let saved: Vec<Value> = r.games.iter().map(|g| parts(&mut ids, g)).collect();
    let got = match guarded(|| load_all_games::<T>(dir.join("out")).map_err(|e| e.to_string())) { Ok(Ok(v)) => v.iter().map(|g| parts(&mut ids, g)).collect(), _ => vec![] };
    json!({"k": "match", "ok": ok, "saved": saved, "got": got})
}
pub fn savedgames(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 30);
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    for i in a.part(n) {
        let dir = scratch(&root, i);
        let g = playable(&mut rng, 3, 3, 3, false);
        let mut g = g; if g.v[0].mv.is_empty() { g.v[0].mv = vec![2]; g.v[0].to = vec![g.v[0].pass]; }
        set_graph(g);
        set_start(None);
        let rec = match i % 8 {
            0 => match_saved::<Script>(&dir),
            1 => match_saved::<TicTacToe>(&dir),
            2 | 3 => games_of::<Backgammon>(&mut rng, &dir, &|r| { let f = r.gen_range(0..12); let mut g = bg::random_position(r, f); g.id = r.gen_range(0..400); g }),
            4 => games_of::<TicTacToe>(&mut rng, &dir, &|r| ttt_position(r).g),
            _ => games_of::<Script>(&mut rng, &dir, &|r| Script { v: r.gen_range(0..9), lane: r.gen(), ply: r.gen(), id: r.gen_range(0..400) }),
        };
        t.put(&rec);
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"histories": t.done()}));
}
