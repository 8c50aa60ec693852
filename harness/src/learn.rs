//! Learning runs in a scratch folder: what they leave on disk, what they trained on.
use crate::{games::*, matches::partial, nets, selfplay::target, util::*};
use die_e::{alphazero::{alphazero::AlphaZero, nnet::ResNet}, constants::DEVICE};
use rand::prelude::*;
use serde_json::{json, Value};
use std::{collections::hash_map::DefaultHasher, fs, hash::{Hash, Hasher}, path::{Path, PathBuf}};
use tch::{nn::VarStore, Tensor};

/// the filters of the first layer read vertex, game and turn of a position: after a pass over a
/// batch its normalisation has moved a tenth of the way to the batch's averages (/4)
pub fn reading(net: &ResNet) {
    tch::no_grad(|| for (name, mut t) in net.vs.variables() {
        if t.size() == [6, 4, 3, 3] {
            let mut w = vec![0f32; 6 * 4 * 9];
            for (f, k) in [(0, 0), (1, 2), (2, 6)] { w[f * 36 + 3 * 9 + k] = 1024.; }
            t.copy_(&Tensor::from_slice(&w).view([6, 4, 3, 3]));
        } else if name == "bias" { let _ = t.zero_(); }
    });
}
/// averages seen so far, in 1e-4
fn averages(net: &ResNet) -> Vec<i64> {
    let v = net.vs.variables();
    let Some(t) = v.get("running_mean") else { return vec![-1; 3] };
    nets::floats(t)[..3].iter().map(|x| (x * 1e4).round() as i64).collect()
}
/// a number for everything in a network / for what training by gradient changes
pub fn digest(net: &ResNet, all: bool) -> u64 {
    let v = net.vs.variables();
    let mut names: Vec<_> = v.keys().filter(|k| all || !k.starts_with("running")).collect();
    names.sort();
    let mut h = DefaultHasher::new();
    for k in names { k.hash(&mut h); for x in nets::floats(&v[k]) { x.to_bits().hash(&mut h); } }
    h.finish()
}
pub fn read_model(p: &Path) -> Option<ResNet> {
    let mut net = ResNet::new::<Script>(VarStore::new(*DEVICE));
    net.vs.load(p).ok()?;
    Some(net)
}
pub fn scratch(root: &Path, i: usize) -> PathBuf {
    let d = root.join(format!("run{i}"));
    fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    d
}
fn names(p: &Path) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(p).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
/// the data sets of all runs not in `old`
fn data_sets(old: &[String]) -> (Vec<Value>, Vec<String>) {
    let base = Path::new("./data/script");
    let (mut out, mut odd) = (vec![], vec![]);
    for run in names(base) {
        if old.contains(&run) { continue; }
        if !run.starts_with("run-") { odd.push(run); continue; }
        for lrn in names(&base.join(&run)) {
            let Some(l) = lrn.strip_prefix("lrn-").and_then(|x| x.parse::<i64>().ok()) else { odd.push(lrn); continue };
            for sp in names(&base.join(&run).join(&lrn)) {
                let Some(s) = sp.strip_prefix("sp-").and_then(|x| x.parse::<i64>().ok()) else { odd.push(sp); continue };
                let p = base.join(&run).join(&lrn).join(&sp);
                let r = guarded(|| AlphaZero::load_training_data(&p));
                let fr: Vec<Value> = r.as_ref().map(|d| d.iter().map(|m| {
                    let (v, lane, ply) = Script::read(&m.state).unwrap_or((-1, -1, -1));
                    json!({"v": v + 1, "lane": lane, "ply": ply, "out": m.outcome, "ps": target(m)})
                }).collect()).unwrap_or_default();
                out.push(json!({"l": l, "s": s, "ok": r.is_ok(), "fr": fr}));
            }
        }
    }
    (out, odd)
}

pub fn learn(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 10);
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    let (mut sets, mut matches) = (0, 0);
    for i in a.part(n) {
        let dir = scratch(&root, i);
        let par = i % 5 != 4;
        let mut cf = Conf { iterations: rng.gen_range(1..4), limit: *[3, 5, 8, 12].choose(&mut rng).unwrap(), num_self_play_batches: rng.gen_range(1..6),
            learn_iterations: rng.gen_range(1..5), self_play_iterations: rng.gen_range(1..4), num_epochs: *[0, 1, 2, 3, 1, 2, 5].choose(&mut rng).unwrap(),
            training_batch_size: 4096, lr: if rng.gen_bool(0.7) { 0. } else { 0.01 }, eps: 0.25, ..Conf::default() };
        // many games
        if i % 10 == 3 { cf.num_self_play_batches = rng.gen_range(20..40); cf.self_play_iterations = rng.gen_range(2..4) }
        // many iterations of one kind
        if i % 20 == 11 { cf.self_play_iterations = rng.gen_range(8..13); cf.learn_iterations = rng.gen_range(1..3) }
        if i % 20 == 16 { cf.learn_iterations = rng.gen_range(10..13); cf.self_play_iterations = 1 }
        if i % 3 == 0 { cf.learn_iterations = cf.learn_iterations.max(2); cf.num_epochs = cf.num_epochs.max(1); }
        let graph = if par { let (d, w, m) = (rng.gen_range(1..4), rng.gen_range(2..4), rng.gen_range(1..4)); let mut g = playable(&mut rng, d, w, m, false);
                if g.v[0].mv.is_empty() { g.v[0].mv = vec![2]; g.v[0].to = vec![g.v[0].pass]; } g }
            else { let l = rng.gen_range(1..6); let mut g = chain(&mut rng, l, 1); for k in [0, g.v.len() - 2] { if g.v[k].mv.is_empty() { g.v[k].mv = vec![2]; g.v[k].to = vec![k as u32 + 1]; } } g };
        let g = set_graph(graph);
        let seed = rng.gen_range(1..1000000);
        let net = nets::random::<Script>(seed, 4., 2.);
        reading(&net);
        let start_at = (averages(&net), digest(&net, false));
        // what is there already: an older run, a best model
        let old_run = rng.gen_bool(0.4);
        let had_best = par && rng.gen_bool(0.4);
        if old_run { fs::create_dir_all("data/script/run-old/lrn-0/sp-0").unwrap(); fs::write("data/script/run-old/lrn-0/sp-0/ps.ot", b"kept").unwrap(); }
        if had_best || rng.gen() { fs::create_dir_all("models/script").unwrap(); }
        if had_best { nets::random::<Script>(seed + 1, 4., 2.).vs.save("models/script/best_model.ot").unwrap(); }
        // the optimiser belongs to the variables: the starting network comes from a file
        net.vs.save("start.ot").unwrap();
        let before = names(Path::new("data/script"));
        let r = guarded(|| {
            let mut z = AlphaZero::from_config::<Script>(Some(PathBuf::from("start.ot")), &cf.config());
            if par { z.learn_parallel::<Script>() } else { z.learn::<Script>() }
            (averages(&z.model), digest(&z.model, true))
        });
        let (ds, odd) = data_sets(&before);
        sets += ds.len();
        let mut last = start_at.1;
        let models: Vec<Value> = (0..cf.learn_iterations).map(|k| {
            match read_model(Path::new(&format!("models/script/model_{k}.ot"))) {
                None => json!({"ok": false}),
                Some(m) => { let d = digest(&m, false); let same = d == last; last = d;
                    json!({"ok": true, "avg": averages(&m), "same": same, "is_final": r.as_ref().map(|x| x.1 == digest(&m, true)).unwrap_or(false)}) }
            }
        }).collect();
        let files = names(Path::new("models/script"));
        let extra = files.iter().filter(|f| *f != "best_model.ot" && !(0..cf.learn_iterations).any(|k| **f == format!("model_{k}.ot"))).count();
        let kept = !old_run || fs::read("data/script/run-old/lrn-0/sp-0/ps.ot").map(|x| x == b"kept").unwrap_or(false);
        if par { matches += cf.learn_iterations - 1 + had_best as usize; }
        t.put(&json!({"k": "learn", "par": par, "ok": r.is_ok(), "L": cf.learn_iterations, "S": cf.self_play_iterations, "E": cf.num_epochs, "B": if par { cf.num_self_play_batches } else { 1 },
            "limit": if par { cf.limit } else { 1000 }, "start": g.start + 1, "graph": g.json(), "still": cf.lr == 0., "avg0": start_at.0, "models": models, "data": ds, "odd": odd.len() + extra, "kept": kept,
            "best": Path::new("models/script/best_model.ot").exists()}));
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"runs": t.done(), "data_sets": sets, "matches": matches}));
}

/// A match decided by who moves: the network that prefers the low codes wins exactly `k` of 400
fn duel_graph(rng: &mut StdRng) -> Graph {
    let v = |p: i8, w: Option<i8>, to: Vec<u32>, mv: Vec<u8>, pass: u32| Vert { p, w, mv, to, pass };
    // codes of side +1 are shifted by 5: moves 0..=6 are its codes 5..=11, so low codes 0..=5 are moves 7..=11 and 0
    let (lo, hi) = (rng.gen_range(0..6), rng.gen_range(6..12));
    let (plo, phi) = (rng.gen_range(7..12), rng.gen_range(1..7));
    Graph { start: 0, v: vec![
        v(-1, None, vec![2, 3], vec![lo, hi], 1),          // low: the challenger sits at -1
        v(1, None, vec![3, 2], vec![plo, phi], 0),         // low: it sits at +1
        v(1, Some(-1), vec![], vec![], 2), v(-1, Some(1), vec![], vec![], 3)] }
}

pub fn best(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 20);
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    for i in a.part(n) {
        let dir = scratch(&root, i);
        // around the threshold, and the extremes
        let k: i64 = if i < 24 { [219, 220, 221, 180, 181, 200, 0, 400, 218, 179, 216, 222][i % 12] } else { rng.gen_range(0..=400) };
        let d = match (i + i / 12) % 3 { 0 => 0, 1 => 400 - k, _ => rng.gen_range(0..=400 - k) };
        let had = i % 8 != 6;
        let through_learn = i % 4 == 1;
        let cf = Conf { iterations: 2, c: 1000., eps: 0., temperature: 1., limit: 10, num_self_play_batches: 4, lr: 0., training_batch_size: 4096, ..Conf::default() };
        set_graph(duel_graph(&mut rng));
        set_rule(Some((k, d)));
        let (new, old) = (partial(0), partial(1));
        new.vs.save("challenger.ot").unwrap();
        fs::create_dir_all("models/script").unwrap();
        if had { old.vs.save("models/script/best_model.ot").unwrap(); }
        let bytes = fs::read("models/script/best_model.ot").unwrap_or_default();
        let mut from = 0;
        let r = guarded(|| {
            let mut z = AlphaZero::from_config::<Script>(Some(PathBuf::from("challenger.ot")), &cf.config());
            if through_learn { from = cf.num_self_play_batches as u32; z.learn_parallel::<Script>() } else { z.play_vs_best_model::<Script>() }
            digest(&z.model, true)
        });
        let lanes: Vec<u32> = (from..lanes()).map(|x| x % 400).collect();
        let stored = read_model(Path::new("models/script/best_model.ot"));
        let is = match &stored { None => "none", Some(m) => { let x = digest(m, true);
            if Ok(x) == r { "new" } else if x == digest(&old, true) { "old" } else { "other" } } };
        let untouched = fs::read("models/script/best_model.ot").map(|b| b == bytes).unwrap_or(false);
        t.put(&json!({"k": "best", "ok": r.is_ok(), "had": had, "learn": through_learn, "wins": k, "draws": d, "lanes": lanes, "is": is, "untouched": untouched}));
        set_rule(None);
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);

    println!("\n{}", json!({"matches": t.done()}));
}
