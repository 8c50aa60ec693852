//! Whole sessions at the command line: the built die-e binary, run again and again in one folder.
use crate::{cli::{die_e, words}, learn::digest, nets, posgen, bg, util::*};
use die_e::{alphazero::{alphazero::AlphaZero, nnet::ResNet}, backgammon::backgammon_logic::Backgammon, base::LearnableGame, constants::DEVICE, tictactoe::TicTacToe, versus::{load_game, save_game, Agent, Game}};
use rand::prelude::*;
use serde_json::{json, Value};
use std::{collections::{BTreeMap, HashMap}, fs, path::{Path, PathBuf}};
use tch::nn::VarStore;

/// what a path in the folder is
#[derive(Clone, PartialEq)]
struct Entry { kind: &'static str, game: String, w: u64, bytes: u64, who: [String; 2] }
#[derive(Default)]
struct Known { by_bytes: HashMap<u64, Entry>, ids: HashMap<u64, usize> }
fn hash(b: &[u8]) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); h.write(b); h.finish() }
fn comps(root: &Path, p: &Path) -> Vec<String> { p.strip_prefix(root).unwrap_or(p).components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect() }

impl Known {
    fn look(&mut self, p: &Path) -> Entry {
        let bytes = fs::read(p).unwrap_or_default();
        let b = hash(&bytes);
        if let Some(e) = self.by_bytes.get(&b) { return e.clone(); }
        let mut e = Entry { kind: "other", game: String::new(), w: 0, bytes: b, who: [String::new(), String::new()] };
        let name = p.extension().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
        if name == "json" {
            let a = guarded(|| load_game::<TicTacToe>(p.to_path_buf()).is_ok()).unwrap_or(false);
            let c = guarded(|| load_game::<Backgammon>(p.to_path_buf()).is_ok()).unwrap_or(false);
            if a || c {
                let v: Value = serde_json::from_slice(&bytes).unwrap_or_default();
                e.kind = "game"; e.game = if a { TicTacToe::name() } else { Backgammon::name() };
                for (k, f) in ["player1", "player2"].iter().enumerate() { e.who[k] = v[f].as_str().unwrap_or("?").to_ascii_lowercase(); }
            }
        } else if name == "ot" && !comps(Path::new("/"), p).iter().any(|c| c.starts_with("sp-")) {
            let mut net = ResNet::new::<TicTacToe>(VarStore::new(*DEVICE));
            if net.vs.load(p).is_ok() { e.kind = "model"; e.game = TicTacToe::name(); e.w = digest(&net, false); }
            else if bytes.len() > 50_000_000 {
                let mut net = ResNet::new::<Backgammon>(VarStore::new(*DEVICE));
                if net.vs.load(p).is_ok() { e.kind = "model"; e.game = Backgammon::name(); e.w = digest(&net, false); }
            }
        }
        self.by_bytes.insert(b, e.clone());
        e
    }
    fn id(&mut self, w: u64) -> usize { let n = self.ids.len() + 1; *self.ids.entry(w).or_insert(n) }
}
/// all files and folders below `root`; the files of a data set are looked at together
fn survey(root: &Path, k: &mut Known) -> (BTreeMap<Vec<String>, Entry>, Vec<Vec<String>>) {
    let (mut files, mut dirs) = (BTreeMap::new(), vec![]);
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        let at = comps(root, &d);
        if at.last().map(|n| n.starts_with("sp-")).unwrap_or(false) && at[0] == "data" {
            let mut all: Vec<PathBuf> = fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).collect();
            all.sort();
            let b = hash(&all.iter().flat_map(|p| fs::read(p).unwrap_or_default()).collect::<Vec<u8>>());
            let n = guarded(|| AlphaZero::load_training_data(&d).len()).unwrap_or(0);
            files.insert(at, Entry { kind: if n > 0 { "set" } else { "other" }, game: String::new(), w: n as u64, bytes: b, who: Default::default() });
            continue;
        }
        dirs.push(at);
        for e in fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() { todo.push(p) } else { files.insert(comps(root, &p), k.look(&p)); }
        }
    }
    dirs.sort();
    (files, dirs)
}
fn shown(k: &mut Known, p: &[String], e: &Entry, was: bool) -> Value {
    let w = if e.kind == "model" { k.id(e.w) } else { e.w as usize };
    json!({"p": p, "kind": e.kind, "game": e.game, "w": w, "who": e.who, "was": was})
}

fn cased(r: &mut StdRng, s: &str) -> String { match r.gen_range(0..3) { 0 => s.to_string(), 1 => s.to_ascii_uppercase(), _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect() } }
const SETTINGS: [&str; 13] = ["temperature", "learn_iterations", "num_epochs", "training_batch_size", "self_play_iterations", "num_self_play_batches", "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon", "wd", "lr"];
fn needs(cmd: &str) -> &'static [&'static str] { match cmd { "play" => &["temperature", "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon"], _ => &SETTINGS } }
/// a command with just one thing wrong
struct Wrong { cmd: &'static str, lacks: &'static str, who: [&'static str; 2], with: [&'static str; 2], wrong: usize }
fn wrongs() -> Vec<Wrong> {
    let w = |cmd, lacks, who, with| Wrong { cmd, lacks, who, with, wrong: 98 };
    let mut v = vec![];
    for c in ["play", "learn", "train"] { for l in needs(c) { v.push(w(c, *l, ["random", "random"], ["", ""])) } }
    // agents: a model without a path whatever the other one has, a path that is no model whoever plays, no agent
    for k in 0..2 { let two = |x: &'static str, y: &'static str| if k == 0 { [x, y] } else { [y, x] };
        for o in ["random", "mcts", "model"] { for p in ["", "kept/b.ot"] { v.push(w("play", "", two("model", o), two("", p))) } }
        for a in ["random", "model"] { for p in ["broken.ot", "missing.ot", "kept", "shown"] { v.push(w("play", "", two(a, "random"), two(p, ""))) } }
        for a in ["", "human", "modell", "1"] { v.push(w("play", "", two(a, "mcts"), ["", ""])) }
    }
    // what else can be wrong, numbered as below
    for (cmd, all) in [("play", &[0, 6, 7, 10, 11][..]), ("learn", &[1, 2, 3, 6, 7]), ("train", &[1, 2, 3, 6, 7, 8, 9, 10, 11]), ("replay", &[1, 2, 3, 7])] {
        for k in all { v.push(Wrong { wrong: *k, ..w(cmd, "", ["random", "random"], ["", ""]) }) } }
    v
}

pub fn sessions(a: &Args) {
    let n = a.num("n", 3);
    let (big, cli, root, seed) = (a.num("big", 0) > 0, a.str("cli"), a.out().with_extension("dir"), a.num("seed", 1));
    // several sessions at a time, each in its own folder
    let all: Vec<Vec<(Value, [usize; 3])>> = std::thread::scope(|sc| {
        let work: Vec<_> = (0..3).map(|w| { let root = &root; sc.spawn(move || (w..n).step_by(3).map(|i| session(i, seed, big, cli, root)).collect()) }).collect();
        work.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let _ = fs::remove_dir_all(&root);
    let mut t = Trace::new(a.out());
    let mut sum = [0; 3];
    for (rec, k) in all.iter().flatten() { t.put(rec); for j in 0..3 { sum[j] += k[j] } }
    println!("\n{}", json!({"sessions": t.done(), "commands": sum[0], "refused": sum[1], "hung": sum[2]}));
}

fn session(i: usize, seed: usize, big: bool, cli: &str, root: &Path) -> (Value, [usize; 3]) {
    let mut rng = StdRng::seed_from_u64((seed * 1000 + i) as u64);
    let cpus = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    let (mut commands, mut refused, mut hung) = (0, 0, 0);
    let (ttt, bgn) = (TicTacToe::name(), Backgammon::name());
    {
        let dir = root.join(format!("s{i}"));
        fs::create_dir_all(&dir).unwrap();
        let r = &mut rng;
        let mut known = Known::default();
        // what lies there before
        for f in ["a.ot", "kept/b.ot"] { fs::create_dir_all(dir.join(f).parent().unwrap()).unwrap(); nets::random::<TicTacToe>(r.gen_range(1..100000), 4., 4.).vs.save(dir.join(f)).unwrap(); }
        fs::write(dir.join("broken.ot"), "not a model").unwrap();
        fs::write(dir.join("broken.json"), "{}").unwrap();
        for d in ["out", "out/second"] { fs::create_dir_all(dir.join(d)).unwrap(); }
        fs::create_dir_all(dir.join("shown")).unwrap();
        save_game(&Game::new(Agent::Random, Agent::Mcts, TicTacToe::new()), dir.join("shown").to_str().unwrap()).unwrap();
        { let mut g = bg::random_position(r, 0); g.board = posgen::nearly_done(r); save_game(&Game::new(Agent::Model, Agent::Random, g), dir.join("shown").to_str().unwrap()).unwrap(); }
        if r.gen_bool(0.35) { fs::create_dir_all(dir.join("models").join(&ttt)).unwrap();
            if r.gen_bool(0.7) { nets::random::<TicTacToe>(r.gen_range(1..100000), 4., 4.).vs.save(dir.join("models").join(&ttt).join("best_model.ot")).unwrap() }
            else { fs::write(dir.join("models").join(&ttt).join("best_model.ot"), "spoilt").unwrap() } }
        let (mut files, mut dirs) = survey(&dir, &mut known);
        let first: Vec<Value> = files.iter().map(|(p, e)| shown(&mut known, p, e, false)).collect();
        let dirs0 = dirs.clone();
        let mut ev = vec![];
        // then commands with just one thing wrong, taken in turn by the sessions
        let plan: Vec<Wrong> = wrongs().into_iter().enumerate().filter(|(j, _)| (j + seed) % 9 == i % 9).map(|(_, w)| w).collect();
        let turns = r.gen_range(6..10);
        for turn in 0..turns + plan.len() {
            let planned = if turn < turns { None } else { Some(&plan[turn - turns]) };
            let cmd = if let Some(p) = planned { p.cmd } else if turn == 0 && r.gen_bool(0.6) { "learn" } else { *["learn", "learn", "play", "play", "train", "train", "train", "replay", "replay"].choose(r).unwrap() };
            let spoilt_best = files.get(&vec!["models".to_string(), ttt.clone(), "best_model.ot".into()]).map(|e| e.kind != "model").unwrap_or(false);
            let models: Vec<Vec<String>> = files.iter().filter(|(_, e)| e.kind == "model").map(|(p, _)| p.clone()).collect();
            let games: Vec<Vec<String>> = files.iter().filter(|(_, e)| e.kind == "game").map(|(p, _)| p.clone()).collect();
            let sets: Vec<Vec<String>> = files.iter().filter(|(_, e)| e.kind == "set").map(|(p, _)| p.clone()).collect();
            // mostly one thing at most is wrong with a command
            let bad = r.gen_bool(if turn == 0 { 0.2 } else { 0.4 });
            let wrong = if let Some(p) = planned { p.wrong } else if bad { r.gen_range(0..12) } else { 99 };
            let mut game = ttt.clone();
            if wrong == 0 && cmd != "play" { game = bgn.clone() }
            if big && !bad && cmd == "learn" && r.gen_bool(0.2) { game = bgn.clone() }
            let pick_model = |r: &mut StdRng| -> Vec<String> { match wrong { 1 => vec!["broken.ot".into()], 2 => vec!["missing.ot".into()], 3 => vec!["kept".into()], _ => models.choose(r).cloned().unwrap_or_default() } };
            let mut cf = Conf { iterations: r.gen_range(1..4), limit: r.gen_range(1..12), num_self_play_batches: r.gen_range(1..5), learn_iterations: if r.gen_bool(0.75) { 1 } else { 2 }, self_play_iterations: r.gen_range(1..4), num_epochs: r.gen_range(0..3),
                training_batch_size: r.gen_range(1..20), lr: if r.gen_bool(0.6) { 0. } else { 0.001 }, ..Conf::default() };
            if game == bgn { cf = Conf { iterations: 1, limit: 1, num_self_play_batches: 1, learn_iterations: 1, self_play_iterations: 1, num_epochs: 0, lr: 0., ..cf } }
            let lacks = if let Some(p) = planned { p.lacks } else if wrong == 4 || wrong == 5 { needs(cmd).choose(r).unwrap() } else { "" };
            let text: String = cf.toml().lines().filter(|l| lacks.is_empty() || cmd == "replay" || l.split(' ').next() != Some(lacks)).map(|l| format!("{l}\n")).collect();
            let lacks = if cmd == "replay" { "" } else { lacks };
            let conf_at = *["conf", "config", "config.toml", "kept/c.toml"].choose(r).unwrap();
            let no_conf = wrong == 6;
            if !no_conf { fs::write(dir.join(conf_at), &text).unwrap(); }
            let mut args: Vec<String> = vec![];
            if no_conf || !conf_at.starts_with("config") || r.gen() { args.extend(words(&["-c", conf_at])) }
            args.extend(words(&["--game", if game == ttt { "tic-tac-toe" } else { "backgammon" }]));
            let too_many = wrong == 7;
            if too_many { args.push(format!("-n={}", cpus + if r.gen_bool(0.7) { 1 } else { r.gen_range(1..100) })) } else { args.extend(words(&["-n", ["1", "2", "4"][..1 + (cpus > 1) as usize + (cpus > 3) as usize].choose(r).unwrap()])) }
            args.push(cmd.into());
            let at = |p: &[String]| p.join("/");
            let mut e = json!({"cmd": cmd, "game": game, "conf": !no_conf, "cpus": !too_many, "lacks": !lacks.is_empty(), "model": [], "a": ["", ""], "m": [[], []], "out": [], "scope": ["", "", ""], "file": [],
                "l": cf.learn_iterations, "s": cf.self_play_iterations, "lr0": cf.lr == 0.});
            match cmd {
                "learn" => {
                    // a spoilt best model is only met where it has to be read first
                    if (r.gen_bool(0.5) || (1..4).contains(&wrong)) && !spoilt_best { let m = pick_model(r); if !m.is_empty() { args.extend(words(&["--model-path", &at(&m)])); e["model"] = json!(m); } }
                }
                "play" => {
                    let agents = ["random", "mcts", "model"];
                    let mut kinds = [agents.choose(r).unwrap().to_string(), agents.choose(r).unwrap().to_string()];
                    if let Some(p) = planned { for k in 0..2 { kinds[k] = p.who[k].into() } }
                    if wrong == 8 { kinds[r.gen_range(0..2)] = ["", "human", "models"].choose(r).unwrap().to_string() }
                    for k in 0..2 {
                        let flags = [["--agent-one", "--model-path-one"], ["--agent-two", "--model-path-two"]][k];
                        if !kinds[k].is_empty() { let x = cased(r, &kinds[k]); args.extend(words(&[flags[0], &x])); }
                        if let Some(p) = planned { if !p.with[k].is_empty() { let m: Vec<String> = p.with[k].split('/').map(String::from).collect(); args.extend(words(&[flags[1], p.with[k]])); e["m"][k] = json!(m); } continue; }
                        let want = kinds[k] == "model" && wrong != 9 || r.gen_bool(0.1) || (1..4).contains(&wrong) && k == 0;
                        if want { let m = pick_model(r); args.extend(words(&[flags[1], &at(&m)])); e["m"][k] = json!(m); }
                    }
                    e["a"] = json!(kinds);
                    let out: Vec<String> = match wrong { 10 => vec!["nowhere".into()], 11 => vec!["a.ot".into()], 0 => vec![], _ => [vec!["out".into()], vec!["out".into(), "second".into()]].choose(r).unwrap().clone() };
                    if !out.is_empty() { args.extend(words(&["-o", &at(&out)])); }
                    e["out"] = json!(out);
                }
                "train" => {
                    if r.gen_bool(0.6) || (1..4).contains(&wrong) { let m = pick_model(r); if !m.is_empty() { args.extend(words(&["-m", &at(&m)])); e["model"] = json!(m); } }
                    let out: Vec<String> = if wrong == 10 { words(&["nowhere", "x.ot"]) } else { match r.gen_range(0..5) { 0 => vec![], 1 => words(&["a.ot"]), 2 => words(&["kept", "t.ot"]), 3 => words(&["models", &ttt, "best_model.ot"]), _ => vec![format!("t{}.ot", r.gen_range(0..3))] } };
                    if !out.is_empty() { args.extend(words(&["-o", &at(&out)])); }
                    e["out"] = json!(if out.is_empty() { vec!["models".to_string(), game.clone(), "trained_model.ot".into()] } else { out });
                    let mut scope = ["".to_string(), "".into(), "".into()];
                    if let Some(s) = sets.choose(r) {
                        let d = r.gen_range(0..4);
                        for k in 0..d { scope[k] = s[2 + k].split_once('-').unwrap().1.to_string(); }
                        match wrong { 8 => scope[0] = "other".into(), 9 if d > 1 => { let k = r.gen_range(0..d - 1); scope[k] = String::new() } 11 if d > 1 => scope[d - 1] = "9".into(), _ => {} }
                    }
                    for (k, f) in ["--run-id", "--learn", "--self-play"].iter().enumerate() { if !scope[k].is_empty() { args.push(format!("{f}={}", scope[k])) } }
                    e["scope"] = json!(scope);
                }
                _ => {
                    let g: Vec<String> = match wrong { 1 => words(&["broken.json"]), 2 => words(&["shown", "missing.json"]), 3 => words(&["a.ot"]), _ => games.choose(r).unwrap().clone() };
                    args.extend(words(&["-g", &at(&g)]));
                    e["file"] = json!(g);
                    if wrong == 99 && files[&g].game == bgn && r.gen_bool(0.7) { let k = args.iter().position(|x| x == "tic-tac-toe").unwrap(); args[k] = "backgammon".into(); e["game"] = json!(bgn); }
                }
            }
            let run = die_e(cli, &dir, &args, &"\n".repeat(300));
            commands += 1; refused += !run.ok as usize; hung += run.hung as usize;
            for c in ["conf", "config", "config.toml", "kept/c.toml"] { let _ = fs::remove_file(dir.join(c)); }
            let (now, ndirs) = survey(&dir, &mut known);
            let put: Vec<Value> = now.iter().filter(|(p, x)| files.get(*p).map(|o| o.bytes) != Some(x.bytes)).map(|(p, x)| shown(&mut known, p, x, files.contains_key(p))).collect();
            let gone: Vec<&Vec<String>> = files.keys().filter(|p| !now.contains_key(*p)).collect();
            e["ok"] = json!(run.ok);
            e["put"] = json!(put); e["gone"] = json!(gone);
            e["dirs"] = json!(ndirs.iter().filter(|d| !dirs.contains(d)).collect::<Vec<_>>());
            e["lost"] = json!(dirs.iter().filter(|d| !ndirs.contains(d)).collect::<Vec<_>>());
            e["line"] = json!(args.join(" "));
            ev.push(e);
            files = now; dirs = ndirs;
        }
        fs::remove_dir_all(&dir).unwrap();
        (json!({"k": "session", "files": first, "dirs": dirs0, "ev": ev}), [commands, refused, hung])
    }
}
