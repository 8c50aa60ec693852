//! The command line, run as a user runs it: the built die-e binary in a scratch folder.
use crate::{games::*, learn::scratch, nets, selfplay::az, store::{parts, Ids}, util::*};
use die_e::{
    alphazero::{alphazero::MemoryFragment, nnet::ResNet}, base::LearnableGame, constants::DEVICE, tictactoe::TicTacToe, versus::{load_all_games, Agent, Player},
};
use rand::prelude::*;
use serde_json::{json, Value};
use std::{fs, io::Write, path::{Path, PathBuf}, process::{Command, Stdio}, time::{Duration, Instant}};
use tch::{nn::VarStore, Tensor};

pub struct Run { pub ok: bool, pub hung: bool }
pub fn die_e(cli: &str, dir: &Path, args: &[String], input: &str) -> Run {
    let mut c = Command::new(cli).args(args).current_dir(dir).env("OMP_NUM_THREADS", "1").env("MKL_NUM_THREADS", "1").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let _ = c.stdin.take().unwrap().write_all(input.as_bytes());
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() { return Run { ok: s.success(), hung: false } }
        if t.elapsed() > Duration::from_secs(240) { let _ = c.kill(); let _ = c.wait(); return Run { ok: false, hung: true } }
        std::thread::sleep(Duration::from_millis(5));
    }
}
/// the same, with what it printed
pub fn die_e_said(cli: &str, dir: &Path, args: &[String], input: &str) -> (Run, String) {
    let said = dir.join("said.txt");
    let mut c = Command::new(cli).args(args).current_dir(dir).env("OMP_NUM_THREADS", "1").env("MKL_NUM_THREADS", "1").stdin(Stdio::piped()).stdout(fs::File::create(&said).unwrap()).stderr(Stdio::null()).spawn().unwrap();
    let _ = c.stdin.take().unwrap().write_all(input.as_bytes());
    let t = Instant::now();
    let run = loop {
        if let Some(s) = c.try_wait().unwrap() { break Run { ok: s.success(), hung: false } }
        if t.elapsed() > Duration::from_secs(240) { let _ = c.kill(); let _ = c.wait(); break Run { ok: false, hung: true } }
        std::thread::sleep(Duration::from_millis(5));
    };
    (run, String::from_utf8_lossy(&fs::read(&said).unwrap_or_default()).into_owned())
}
pub fn words(s: &[&str]) -> Vec<String> { s.iter().map(|x| x.to_string()).collect() }

// ---- train ------------------------------------------------------------------
/// filter k of the first layer reads plane k / 9, shifted by k % 9; the last filter is 1 everywhere; nothing goes further
fn tapping() -> ResNet {
    let net = ResNet::new::<TicTacToe>(VarStore::new(*DEVICE));
    tch::no_grad(|| for (name, mut t) in net.vs.variables() {
        let s = t.size();
        let _ = if name.starts_with("running_var") { t.fill_(1.) } else { t.zero_() };
        if s == [TicTacToe::N_FILTERS, 3, 3, 3] {
            for k in 0..27i64 { let _ = t.get(k).get(k / 9).get(k % 9 / 3).get(k % 3).fill_(1.); }
        }
        if name.starts_with("bias") && s == [TicTacToe::N_FILTERS] { let _ = t.get(TicTacToe::N_FILTERS - 1).fill_(1.); }
    });
    net
}
/// what each of the 27 input cells held on average in one training batch; the number of batches was one?
fn read_taps(net: &ResNet) -> (Vec<f64>, bool) {
    let mut sum = vec![0f64; 27];
    let mut one = true;
    for (name, t) in net.vs.variables() {
        if name.starts_with("running_mean") && t.size() == [TicTacToe::N_FILTERS] {
            let f = nets::floats(&t);
            for k in 0..27 { sum[k] += f[k]; }
            one &= (f[TicTacToe::N_FILTERS as usize - 1] - 0.1).abs() < 1e-5;
        }
    }
    // the running mean moves by a tenth; a mean over 9 outputs
    let w = |p: usize, a: usize, b: usize| sum[p * 9 + a * 3 + b] * 10. * 9.;
    // weight (a, b) of the kernel sums the input over rows r-1+a, columns c-1+b: 0 misses the last row, 2 the first
    let mut cell = vec![0f64; 27];
    for p in 0..3 {
        let rows = |b: usize| { let (up, all, down) = (w(p, 0, b), w(p, 1, b), w(p, 2, b)); [all - down, up + down - all, all - up] };
        let cols: Vec<[f64; 3]> = (0..3).map(rows).collect();
        for r in 0..3 {
            let (left, all, right) = (cols[0][r], cols[1][r], cols[2][r]);
            for (c, v) in [all - right, left + right - all, all - left].into_iter().enumerate() { cell[p * 9 + r * 3 + c] = v; }
        }
    }
    (cell, one)
}
pub fn train(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 12);
    let cli = a.str("cli");
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    let (mut sets, mut hung) = (0, 0);
    for i in a.part(n) {
        let dir = scratch(&root, i);
        let base = dir.join("data").join(TicTacToe::name());
        // names of runs, some of them part of others or looking like other folders
        let mut pool = vec!["sp", "sp-1", "a", "ab", "a-sp-x", "lrn-1", "1", "12", "run-a", "-x", "V1StGXR8_Z5jdHi6B-myT", "a b", "sp-a.b", "data", "x.ot", "_sp-"];
        pool.shuffle(&mut rng);
        // run ids are drawn from letters, digits, `_` and `-`: any of these may come first or last
        let any = |rng: &mut StdRng| -> String {
            let cs: Vec<char> = "_-0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
            let mut s: Vec<char> = (0..rng.gen_range(4..22)).map(|_| *cs.choose(rng).unwrap()).collect();
            let e = s.len() - 1;
            if rng.gen() { s[0] = *['_', '-'].choose(rng).unwrap() }
            if rng.gen() { s[e] = *['_', '-', 'Z'].choose(rng).unwrap() }
            s.into_iter().collect()
        };
        let odd = [format!("_{}", any(&mut rng)), format!("-{}", any(&mut rng)), format!("{}-", any(&mut rng)), format!("Q{}_", any(&mut rng)), any(&mut rng).to_uppercase(), any(&mut rng).to_lowercase()];
        let odd = odd.choose_multiple(&mut rng, 2).collect::<Vec<_>>();
        pool.splice(0..0, odd.iter().map(|x| x.as_str()));
        let mut at: Vec<[String; 3]> = vec![];
        let near = ["1", "10", "0", "2", "11", "01"];
        for r in pool.iter().take(rng.gen_range(2..6)) {
            let nl = rng.gen_range(1..4);
            for l in near.choose_multiple(&mut rng, nl).copied().collect::<Vec<_>>() {
                let ns = rng.gen_range(1..4);
                for s in near.choose_multiple(&mut rng, ns) { at.push([r.to_string(), l.to_string(), s.to_string()]); }
            }
        }
        at.shuffle(&mut rng);
        at.truncate(26);
        let mut cells: Vec<usize> = (0..27).collect();
        cells.shuffle(&mut rng);
        let count: Vec<usize> = at.iter().map(|_| if rng.gen_bool(0.25) { 1 } else { rng.gen_range(2..20) }).collect();
        let z = az::<Script>(&Conf::default(), nets::random::<Script>(1, 1., 1.));
        for (k, x) in at.iter().enumerate() {
            let d = base.join(format!("run-{}", x[0])).join(format!("lrn-{}", x[1])).join(format!("sp-{}", x[2]));
            fs::create_dir_all(&d).unwrap();
            let data: Vec<MemoryFragment> = (0..count[k]).map(|_| {
                let mut s = vec![0f32; 27]; s[cells[k]] = 1.;
                let mut p = vec![0f32; TicTacToe::ACTION_SPACE_SIZE as usize]; p[rng.gen_range(0..9)] = 1.;
                MemoryFragment { outcome: rng.gen_range(-1..=1), ps: Tensor::from_slice(&p), state: Tensor::from_slice(&s).view([1, 3, 3, 3]) }
            }).collect();
            z.save_training_data(&data, &d);
        }
        // other things lie around, too
        if rng.gen() { fs::write(base.join("notes.txt"), "x").unwrap(); }
        if rng.gen() { let x = at.choose(&mut rng).unwrap(); fs::write(base.join(format!("run-{}", x[0])).join(".DS_Store"), "x").unwrap(); }
        if rng.gen_bool(0.3) { fs::create_dir_all(base.join("run-nothing-yet")).unwrap(); }
        if rng.gen_bool(0.3) { fs::create_dir_all(dir.join("data").join("backgammon/run-a/lrn-1/sp-1")).unwrap(); }
        tapping().vs.save(dir.join("net.ot")).unwrap();
        for q in 0..3 {
            let x = at.choose(&mut rng).unwrap().clone();
            let depth = rng.gen_range(0..4);
            let mut ask: Vec<String> = (0..3).map(|k| if k < depth { x[k].clone() } else { String::new() }).collect();
            // something that is not there, or not asked for properly
            if q == 2 { match rng.gen_range(0..4) {
                0 => ask = words(&[pool.last().unwrap(), "", ""]),
                1 => { ask = x.to_vec(); ask[1] = "77".into(); if rng.gen() { ask[2] = String::new() } }
                2 => { ask = x.to_vec(); ask[2] = "77".into(); }
                _ => { ask = x.to_vec(); let k = rng.gen_range(0..2); ask[k] = String::new(); if rng.gen() && k == 0 { ask[2] = String::new() } }
            } }
            let inside: Vec<bool> = at.iter().map(|d| (0..3).all(|k| ask[k].is_empty() || ask[k] == d[k])).collect();
            let want: usize = (0..at.len()).filter(|k| inside[*k]).map(|k| count[k]).sum();
            fs::write(dir.join("conf"), Conf { training_batch_size: want.max(1), lr: 0., wd: 0., ..Conf::default() }.toml()).unwrap();
            let out = dir.join(format!("out{q}.ot"));
            let mut args = words(&["-c", "conf", "-g", "tic-tac-toe", "-n", "2", "train", "--model-path", "net.ot"]);
            let dflt = rng.gen_bool(0.2);
            let out = if dflt { fs::create_dir_all(dir.join("models").join(TicTacToe::name())).unwrap(); dir.join("models").join(TicTacToe::name()).join("trained_model.ot") } else { args.push("--out-path".into()); args.push(format!("out{q}.ot")); out };
            let _ = fs::remove_file(&out);
            for (k, f) in ["--run-id", "--learn", "--self-play"].iter().enumerate() { if !ask[k].is_empty() { args.push(format!("{f}={}", ask[k])); } }
            let r = die_e(cli, &dir, &args, "");
            hung += r.hung as usize;
            let wrote = out.exists();
            let (cell, one) = if r.ok && wrote { let mut net = ResNet::new::<TicTacToe>(VarStore::new(*DEVICE)); net.vs.load(&out).unwrap(); read_taps(&net) } else { (vec![0.; 27], false) };
            let used: Vec<i64> = (0..at.len()).map(|k| { let u = cell[cells[k]] * want as f64 / count[k] as f64; if (u - u.round()).abs() < 0.02 { u.round() as i64 } else { -1 } }).collect();
            sets += at.len();
            t.put(&json!({"k": "train", "tree": at.iter().map(|x| json!({"at": x})).collect::<Vec<_>>(), "ask": ask, "ok": r.ok, "wrote": wrote, "one": one, "used": used}));
        }
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"commands": t.done(), "data_sets_looked_at": sets, "hung": hung}));
}

// ---- play -------------------------------------------------------------------
/// `play` from the command line: the games it leaves in the folder; each can be shown by `replay`
pub fn play(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 3);
    let cli = a.str("cli");
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    set_graph(layered(&mut rng, 3, 3, 3));
    for i in a.part(n) {
        let dir = scratch(&root, i);
        fs::create_dir_all(dir.join("out")).unwrap();
        nets::random::<TicTacToe>(rng.gen(), 3., 3.).vs.save(dir.join("net.ot")).unwrap();
        let kinds = ["random", "mcts", "model"];
        let (x, y) = match i % 3 { 0 => (0, 1), 1 => (1, 0), _ => (0, 2) };
        fs::write(dir.join("conf"), Conf { iterations: 3, limit: 20, ..Conf::default() }.toml()).unwrap();
        let mut args = words(&["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "play", "--agent-one", kinds[x], "--agent-two", kinds[y], "-o", "out"]);
        if kinds[y] == "model" { args.extend(words(&["--model-path-two", "net.ot"])); }
        let r = die_e(cli, &dir, &args, "");
        let mut ids = Ids::default();
        let (ok, got): (bool, Vec<Value>) = match guarded(|| load_all_games::<TicTacToe>(dir.join("out")).map_err(|e| e.to_string())) { Ok(Ok(v)) => (true, v.iter().map(|g| parts(&mut ids, g)).collect()), _ => (false, vec![]) };
        // one of them is shown
        let mut fs_: Vec<PathBuf> = fs::read_dir(dir.join("out")).unwrap().flatten().map(|e| e.path()).collect();
        fs_.sort();
        let shown = fs_.first().map(|f| die_e(cli, &dir, &[words(&["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "replay", "-g"]), vec![f.to_str().unwrap().into()]].concat(), &"\n".repeat(500)).ok).unwrap_or(false);
        let mut named: Vec<Value> = fs_.iter().filter_map(|f| { let v: Value = serde_json::from_str(&fs::read_to_string(f).ok()?).ok()?; Some(json!([v["player1"].as_str()?.to_ascii_lowercase(), v["player2"].as_str()?.to_ascii_lowercase()])) }).collect();
        named.dedup();
        let games = die_e::versus::play::<Script>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &Conf::default().mcts(), 1.).n_games;
        t.put(&json!({"k": "play", "ok": r.ok && ok, "shown": shown, "named": named, "n": games, "a": [kinds[x], kinds[y]], "got": got}));
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"matches": t.done()}));
}
