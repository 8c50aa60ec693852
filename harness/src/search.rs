//! Searches of the real code, iteration by iteration (hook: verif::search_step).
use crate::{bg, games::*, nets, util::*};
use die_e::{
    alphazero::{alphazero::AlphaZero, nnet::ResNet}, backgammon::backgammon_logic::Backgammon, base::LearnableGame,
    mcts::{alpha_mcts::{alpha_mcts, alpha_mcts_parallel}, node_store::NodeStore, simple_mcts::mct_search, utils::get_prob_tensor_parallel},
    tictactoe::TicTacToe, verif::{self, NodeView},
};
use rand::prelude::*;
use serde_json::{json, Map, Value};
use tch::Tensor;

const NAN: i64 = 2_000_000_000;
pub fn micro(x: f64) -> i64 { if x.is_finite() && x.abs() < 1900. { (x * 1e6).round() as i64 } else { NAN } }
fn whole(x: f32) -> i64 { if x.fract() == 0. && x.abs() < 1e6 { x as i64 } else { -999_999 } }

/// states are compared without dice: those of a backgammon successor are fresh
fn key(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(g) = v.get_mut("g").and_then(|g| g.as_object_mut()) { g.remove("roll"); }
    v
}

struct Rec<'a, T: LearnableGame> { net: Option<&'a ResNet>, states: Vec<Option<T>>, offered: Vec<Vec<Value>> }

impl<'a, T: LearnableGame> Rec<'a, T> {
    fn index(&self, of: usize, m: &Value) -> usize { self.offered.get(of).and_then(|o| o.iter().position(|x| x == m)).map(|i| i + 1).unwrap_or(0) }
    fn untried(&self, i: usize, v: &NodeView) -> Vec<usize> { v.expandable_moves.iter().map(|m| self.index(i, m)).collect() }

    fn node(&mut self, i: usize, v: &NodeView) -> Value {
        let st: Option<T> = serde_json::from_value(v.state.clone()).ok();
        let off = st.and_then(|s| guarded(|| s.get_valid_moves()).ok()).unwrap_or_default();
        self.states.push(st);
        self.offered.push(off.iter().map(|m| json!(m)).collect());
        let (mut mi, mut ok) = (0, true);
        if let Some(p) = v.parent {
            mi = v.action_taken.as_ref().map(|m| self.index(p, m)).unwrap_or(0);
            let want = self.states.get(p).copied().flatten().and_then(|s| v.action_taken.as_ref().and_then(|m| {
                let m: T::Move = serde_json::from_value(m.clone()).ok()?;
                guarded(|| { let mut n = s; n.apply_move(&m); n }).ok()
            }));
            ok = want.map(|w| key(&json!(w)) == key(&v.state)).unwrap_or(false);
        }
        let w = st.and_then(|s| s.check_winner());
        json!({"par": v.parent.map(|p| p + 1).unwrap_or(0), "mi": mi, "ok": ok, "p": st.map(|s| s.get_player()).unwrap_or(0), "w": w.unwrap_or(2),
               "v": v.state.get("v").and_then(|x| x.as_i64()).map(|x| x + 1).unwrap_or(0),
               "n": self.offered[i].len(), "kids": v.children.iter().map(|c| c + 1).collect::<Vec<_>>(), "un": self.untried(i, v),
               "vis": whole(v.visits), "val": micro(v.value as f64), "pri": if v.policy.is_nan() { -1 } else { micro(v.policy as f64) }})
    }

    /// the network's own policy for the offered moves of a node, as shares of its largest, and their raw sum
    fn pol(&self, i: usize) -> Value {
        let (Some(net), Some(s)) = (self.net, self.states[i]) else { return json!({"i": i + 1, "pol": [], "s": 0, "ev": NAN}) };
        let (p, ev) = nets::eval(net, &s);
        let x: Vec<f64> = self.offered[i].iter().map(|m| {
            let m: T::Move = serde_json::from_value(m.clone()).unwrap();
            guarded(|| p[s.encode(&m) as usize]).unwrap_or(0.)
        }).collect();
        let mx = x.iter().cloned().fold(0., f64::max);
        let sum: f64 = x.iter().sum();
        let sh: Vec<i64> = x.iter().map(|v| if mx > 1e-30 { (v / mx * 1e6).round() as i64 } else { 0 }).collect();
        json!({"i": i + 1, "pol": sh, "s": micro(sum), "ev": micro(ev)})
    }

    fn trace(&mut self, snaps: &[Vec<NodeView>]) -> (Value, Value, Value) {
        let Some(s0) = snaps.first() else { return (json!([]), json!([]), json!([])) };
        let init: Vec<Value> = s0.iter().enumerate().map(|(i, v)| self.node(i, v)).collect();
        let pol0: Vec<Value> = if self.net.is_some() { (0..s0.len()).filter(|&i| !s0[i].children.is_empty()).map(|i| self.pol(i)).collect() } else { vec![] };
        let mut ev = vec![];
        for k in 1..snaps.len() {
            let (a, b) = (&snaps[k - 1], &snaps[k]);
            let (mut chg, mut new, mut pol, mut moved, mut repri) = (vec![], vec![], vec![], 0, 0);
            for (i, v) in b.iter().enumerate() {
                if i >= a.len() { new.push(self.node(i, v)); continue; }
                let o = &a[i];
                if o.state != v.state || o.parent != v.parent || o.action_taken != v.action_taken { moved += 1 }
                if o.policy != v.policy && !(o.policy.is_nan() && v.policy.is_nan()) { repri += 1 }
                if o.visits != v.visits || o.value != v.value || o.children != v.children || o.expandable_moves != v.expandable_moves {
                    chg.push(json!({"i": i + 1, "dv": whole(v.visits - o.visits), "dq": micro(v.value as f64 - o.value as f64), "val": micro(v.value as f64),
                        "kids": v.children.iter().map(|c| c + 1).collect::<Vec<_>>(), "un": self.untried(i, v)}));
                    if self.net.is_some() && o.children.is_empty() { pol.push(self.pol(i)); }
                }
            }
            ev.push(json!({"chg": chg, "new": new, "pol": pol, "moved": moved + a.len().saturating_sub(b.len()), "repri": repri}));
        }
        (json!(init), json!(pol0), json!(ev))
    }
}

fn row<T: LearnableGame>(s: &T, t: &Tensor) -> Value {
    let f = nets::floats(t);
    let codes: Vec<usize> = guarded(|| s.get_valid_moves().iter().map(|m| s.encode(m) as usize).collect()).unwrap_or_default();
    let pr: Vec<i64> = codes.iter().map(|&c| f.get(c).map(|x| micro(*x)).unwrap_or(NAN)).collect();
    let rest: f64 = f.iter().enumerate().filter(|(i, _)| !codes.contains(i)).map(|(_, x)| x.abs()).sum();
    json!({"pr": pr, "rest": micro(rest), "size": f.len()})
}
fn choice<T: LearnableGame>(s: &T, m: &T::Move) -> i64 {
    if *m == T::EMPTY_MOVE { return -1; }
    s.get_valid_moves().iter().position(|x| x == m).map(|i| i as i64 + 1).unwrap_or(0)
}

pub fn one<T: LearnableGame>(mode: &str, game: &str, input: &[T], net: &ResNet, cf: &Conf, temp: f64, last_only: bool) -> Map<String, Value> {
    let mc = cf.mcts();
    let s = input[0];
    let mut fin = json!({"ok": true, "mi": -2, "rows": []});
    if last_only { verif::start_last() } else { verif::start() }
    let mut panic = None;
    match mode {
        "rollout" => match guarded(|| mct_search(s, s.get_player(), &mc)) { Ok(m) => fin["mi"] = json!(choice(&s, &m)), Err(e) => panic = Some(e) },
        "single" => match guarded(|| alpha_mcts(&s, net, &mc)) {
            Ok(Some(t)) => fin["rows"] = json!([row(&s, &t)]), Ok(None) => fin["mi"] = json!(-1), Err(e) => panic = Some(e) },
        "pick" => {
            let r = guarded(|| {
                let mut az = AlphaZero::from_config::<T>(None, &Conf { temperature: temp, ..*cf }.config());
                az.model = nets::random::<T>(1, 1., 1.);
                az.model.vs.copy(&net.vs).unwrap();
                az.get_next_move_for_state(&s)
            });
            match r { Ok(m) => fin["mi"] = json!(choice(&s, &m)), Err(e) => panic = Some(e) }
        }
        _ => {
            let r = guarded(|| {
                let mut store = NodeStore::new();
                alpha_mcts_parallel(&mut store, input, net, &mc, Some(indicatif::ProgressBar::hidden()));
                let roots = store.get_root_nodes();
                let t = get_prob_tensor_parallel(&roots, &store);
                (roots.len(), t)
            });
            match r {
                Ok((n, t)) => {
                    fin["nroots"] = json!(n);
                    fin["rows"] = json!(input.iter().enumerate().map(|(i, s)| if (i as i64) < t.size()[0] { row(s, &t.get(i as i64)) } else { json!({"pr": [], "rest": NAN, "size": 0}) }).collect::<Vec<_>>());
                }
                Err(e) => panic = Some(e),
            }
        }
    }
    let snaps = verif::take();
    if let Some(e) = panic { fin["ok"] = json!(false); fin["panic"] = json!(e.chars().take(200).collect::<String>()); }
    record(mode, game, input, net, cf, temp, snaps, fin, last_only)
}

/// the record of one search
#[allow(clippy::too_many_arguments)]
pub fn record<T: LearnableGame>(mode: &str, game: &str, input: &[T], net: &ResNet, cf: &Conf, temp: f64, mut snaps: Vec<Vec<NodeView>>, fin: Value, last_only: bool) -> Map<String, Value> {
    let s = input[0];
    let steps = snaps.len() as i64 - 1;
    if last_only && snaps.len() > 1 { snaps.drain(..snaps.len() - 1); }
    let mut rec = Rec::<T> { net: if mode == "rollout" { None } else { Some(net) }, states: vec![], offered: vec![] };
    let (init, pol0, ev) = rec.trace(&snaps);
    let rootok: Vec<bool> = input.iter().enumerate().map(|(i, s)| snaps.first().map(|f| f.get(i).map(|v| v.parent.is_none() && v.state == json!(s)).unwrap_or(false)).unwrap_or(false)).collect();
    let mut m = Map::new();
    for (k, v) in [("k", json!(mode)), ("game", json!(game)), ("c", json!((cf.c * 100.).round() as i64)), ("iters", json!(cf.iterations)), ("limit", json!(cf.limit)),
                   ("eps", json!(micro(cf.eps))), ("temp", json!(micro(temp))), ("roots", json!(input.len())), ("steps", json!(steps)), ("final", json!(last_only)),
                   ("done", json!(s.check_winner().is_some())), ("offers", json!(input.iter().map(|s| guarded(|| s.get_valid_moves().len()).unwrap_or(0)).collect::<Vec<_>>())),
                   ("rootok", json!(rootok)), ("init", init), ("pol0", pol0), ("ev", ev), ("fin", fin)] { m.insert(k.into(), v); }
    m
}

fn ttt(rng: &mut StdRng) -> Small<TicTacToe> {
    let mut g = TicTacToe::new();
    if rng.gen() { g.skip_turn() }
    for _ in 0..rng.gen_range(0..8) {
        let mut h = g;
        h.apply_move(h.get_valid_moves().choose(rng).unwrap());
        if h.check_winner().is_some() { break; }
        g = h;
    }
    Small { g }
}
fn bgp(rng: &mut StdRng, i: usize) -> Small<Backgammon> {
    loop {
        let k = i + rng.gen_range(0..40);
        let g = bg::random_position(rng, k);
        let n = guarded(|| g.get_valid_moves().len()).unwrap_or(0);
        if g.check_winner().is_none() && n <= 40 { return Small { g }; }
    }
}
/// one with about `k` moves
fn bgp_of(rng: &mut StdRng, k: usize) -> Small<Backgammon> {
    loop {
        let j = rng.gen_range(0..40);
        let g = bg::random_position(rng, j);
        if g.roll.0 == g.roll.1 || g.check_winner().is_some() { continue }
        let n = guarded(|| g.get_valid_moves().len()).unwrap_or(0);
        if n + 8 >= k && n <= k + 8 { return Small { g }; }
    }
}
/// a position with a great many moves
fn wide(rng: &mut StdRng) -> Small<Backgammon> {
    loop {
        let mut g = Backgammon::new();
        g.board = ([0; 24], (0, 0), (0, 0));
        if rng.gen() { g.skip_turn() }
        let p = g.get_player();
        for _ in 0..15 { let k = rng.gen_range(0..24); g.board.0[k] += p }
        let k = (0..24).find(|&k| g.board.0[k] == 0).unwrap_or(0);
        g.board.0[k] = -p;
        if g.board.0[k].abs() > 1 { continue }
        if p == 1 { g.board.2.0 = 14 } else { g.board.2.1 = 14 }
        let d = rng.gen_range(1..=6);
        g.roll = if rng.gen_bool(0.8) { (d, d) } else { (rng.gen_range(1..=6), rng.gen_range(1..=6)) };
        let n = guarded(|| g.get_valid_moves().len()).unwrap_or(0);
        if g.check_winner().is_none() && n > 40 && n < 140 { return Small { g }; }
    }
}

pub fn search(a: &Args) {
    let mut rng = a.rng();
    let modes: Vec<&str> = a.str("modes").split(',').collect();
    let games: Vec<&str> = a.get("games").unwrap_or("script,ttt,bg").split(',').collect();
    let n = a.num("n", 50);
    let fixed_eps: Option<f64> = a.get("eps").map(|s| s.parse().unwrap());
    let maxit = a.num("iters", 60);
    let last_only = a.get("final").is_some();
    let deep = a.get("deep").is_some();
    let mut t = Trace::new(a.out());
    let (mut iters, mut nodes) = (0, 0);
    for i in a.part(n) {
        let mode = modes[i % modes.len()];
        let game = games[(i / modes.len()) % games.len()];
        let eps = fixed_eps.unwrap_or(*[0., 0., 0.25, 0.9].choose(&mut rng).unwrap());
        let mut cf = Conf { iterations: if rng.gen_bool(0.15) { rng.gen_range(1..=2) } else { rng.gen_range(1..=maxit) }, c: *[2.0, 1.0, 0.5, 4.0, 0.1, 0.02, 16.0, 30.0].choose(&mut rng).unwrap(),
                        limit: if rng.gen_bool(0.5) { rng.gen_range(1..=4) } else { 60 }, eps, alpha: 0.3, ..Conf::default() };
        let gain = if deep { 1. } else { *[1., 8., 30.].choose(&mut rng).unwrap() };
        let vgain = *[1., 6., 20.].choose(&mut rng).unwrap();
        if deep { cf.c = 16. }
        let nseed = rng.gen_range(1..1000000);
        let temp = *[1.0, 0.05, 0.3, 2.5, 10.].choose(&mut rng).unwrap();
        let huge = mode == "batch" && game == "script" && i % 100 == 14;
        let many = huge || mode == "batch" && rng.gen_bool(0.06);
        let vastly = huge || many && game == "script" && rng.gen_bool(0.3);
        let size = if huge || vastly && rng.gen() { rng.gen_range(257..=300) } else if vastly { rng.gen_range(65..=130) } else if many { rng.gen_range(10..=40) } else if mode == "batch" { rng.gen_range(1..=6) } else { 1 };
        if many { cf.iterations = cf.iterations.min(if vastly { 2 } else { 6 }) }
        let mut m = match game {
            "script" => {
                let long = !many && rng.gen_bool(a.get("long").map(|x| x.parse().unwrap()).unwrap_or(0.06));
                let g = if long {
                    // a small game searched at length
                    cf.iterations = if last_only { rng.gen_range(500..=1800) } else { rng.gen_range(260..=600) };
                    if last_only || rng.gen() { cf.c = rng.gen_range(4.0f64..16.).round() }
                    let (d, w, mx) = if deep && rng.gen_bool(0.7) { (rng.gen_range(5..11), rng.gen_range(4..8), rng.gen_range(4..8)) }
                        else if deep { (rng.gen_range(3..9), rng.gen_range(1..5), rng.gen_range(2..5)) } else { (rng.gen_range(1..4), rng.gen_range(1..4), rng.gen_range(2..4)) };
                    layered(&mut rng, d, w, mx)
                } else if !many && rng.gen_bool(0.06) {
                    // one long line of play, searched to its end or played out past it
                    let len = rng.gen_range(18..48);
                    cf.iterations = rng.gen_range(len + 2..len + 25);
                    cf.limit = if rng.gen() { rng.gen_range(1..60) } else { 200 };
                    let w = *[-1, 0, 1].choose(&mut rng).unwrap(); line(&mut rng, len, w)
                } else if mode == "rollout" && rng.gen_bool(0.06) {
                    let len = rng.gen_range(55..140);
                    cf.iterations = cf.iterations.min(4);
                    cf.limit = if rng.gen() { rng.gen_range(50..140) } else { 500 };
                    let w = *[-1, 1].choose(&mut rng).unwrap(); chain(&mut rng, len, w)
                } else if rng.gen_bool(0.25) {
                    let len = rng.gen_range(1..9);
                    if rng.gen_bool(0.7) { cf.limit = (len + rng.gen_range(0..4)).max(2) - 1; }
                    let w = *[-1, 0, 1].choose(&mut rng).unwrap(); chain(&mut rng, len, w)
                } else { let (d, w, mx) = (rng.gen_range(2..8), rng.gen_range(2..6), rng.gen_range(1..6)); layered(&mut rng, d, w, mx) };
                let g = set_graph(g);
                let open: Vec<u32> = (0..g.v.len() as u32).filter(|&v| g.v[v as usize].w.is_none()).collect();
                let mut input: Vec<Script> = (0..size).map(|l| {
                    let v = if rng.gen_bool(0.4) { 0 } else { *open.choose(&mut rng).unwrap() };
                    Script::at(v, l as u32 + 1) }).collect();
                if size == 1 && mode != "batch" && rng.gen_bool(0.03) { if let Some(v) = (0..g.v.len()).find(|&v| g.v[v].w.is_some()) { input[0].v = v as u32 } }
                let net = nets::random::<Script>(nseed, gain, vgain);
                let mut m = one(mode, game, &input, &net, &cf, temp, last_only);
                if mode == "rollout" { m.insert("graph".into(), g.json()); }
                m
            }
            "ttt" => {
                if deep { cf.iterations = rng.gen_range(300..=700) }
                if many { cf.iterations = cf.iterations.min(100) }
                let input: Vec<Small<TicTacToe>> = (0..size).map(|_| if deep { (0..4).map(|_| ttt(&mut rng)).max_by_key(|s| s.get_valid_moves().len()).unwrap() } else { ttt(&mut rng) }).collect();
                one(mode, game, &input, &nets::random::<Small<TicTacToe>>(nseed, gain, vgain), &cf, temp, last_only)
            }
            _ => {
                cf.iterations = cf.iterations.min(if mode == "rollout" { 40 } else { 12 });
                cf.limit = cf.limit.min(if rng.gen_bool(0.2) { 400 } else { 20 });
                let size = if many { cf.iterations = cf.iterations.min(2); size.min(24) } else { size.min(3) };
                let vast = !many && rng.gen_bool(0.08);
                if vast { cf.iterations = cf.iterations.min(3) }
                let input: Vec<Small<Backgammon>> = (0..size).map(|_| if vast { wide(&mut rng) } else { bgp(&mut rng, i) }).collect();
                one(mode, game, &input, &nets::random::<Small<Backgammon>>(nseed, gain, vgain), &cf, temp, last_only)
            }
        };
        iters += m["ev"].as_array().unwrap().len();
        nodes += m["init"].as_array().unwrap().len() + m["ev"].as_array().unwrap().iter().map(|e| e["new"].as_array().unwrap().len()).sum::<usize>();
        m.insert("seed".into(), json!(i));
        t.put(&Value::Object(m));
    }
    println!("{}", json!({"searches": t.done(), "iterations": iters, "nodes": nodes}));
}

/// Exploration noise at roots: many searches of one iteration each, every action code offered at the root
pub fn noise(a: &Args) {
    let mut rng = a.rng();
    let mut t = Trace::new(a.out());
    let n = a.num("n", 60);
    for mode in ["single", "batch"] {
        for (eps, alpha) in [(0.25, 0.05), (0.6, 0.3), (0.05, 0.05), (0.4, 1.5)] {
            let cf = Conf { iterations: 1, eps, alpha, ..Conf::default() };
            let mv: Vec<u8> = (0..ACTIONS as u8).collect();
            let end = Vert { p: 1, w: Some(1), mv: vec![], to: vec![], pass: 1 };
            set_graph(Graph { v: vec![Vert { p: if rng.gen() { 1 } else { -1 }, w: None, to: vec![1; mv.len()], mv, pass: 1 }, end], start: 0 });
            let net = nets::random::<Script>(rng.gen_range(1..10000), 1., 1.);
            let roots: Vec<Value> = (0..n).map(|i| {
                let m = one(mode, "script", &[Script::at(0, i as u32)], &net, &cf, 1., false);
                let kids: Vec<&Value> = m["init"].as_array().unwrap().iter().filter(|x| x["par"] == 1).collect();
                json!({"ok": m["fin"]["ok"], "pol": m["pol0"][0]["pol"], "mi": kids.iter().map(|x| x["mi"].clone()).collect::<Vec<_>>(),
                       "pri": kids.iter().map(|x| x["pri"].clone()).collect::<Vec<_>>()})
            }).collect();
            t.put(&json!({"noise": mode, "eps": micro(eps), "alpha": (alpha * 100.).round() as i64, "heads": roots}));
        }
    }
    // roots with few moves, and of backgammon, searched one at a time
    let mut more = 0;
    for (k, eps, alpha) in [(2, 0.25, 0.3), (5, 0.5, 0.3), (5, 0.25, 1.), (30, 0.25, 0.3), (40, 0.5, 0.1)] {
        let cf = Conf { iterations: 1, eps, alpha, ..Conf::default() };
        let seed = rng.gen_range(1..10000);
        let g = bgp_of(&mut rng, k);
        let end = Vert { p: 1, w: Some(1), mv: vec![], to: vec![], pass: 1 };
        set_graph(Graph { v: vec![Vert { p: if rng.gen() { 1 } else { -1 }, w: None, to: vec![1; k], mv: (0..k as u8).map(|m| m % ACTIONS as u8).collect(), pass: 1 }, end], start: 0 });
        let (script, real) = (nets::random::<Script>(seed, 1., 1.), nets::random::<Small<Backgammon>>(seed, 1., 1.));
        let m = if k > 5 { n / 2 } else { n };
        more += m;
        let roots: Vec<Value> = (0..m).map(|i| {
            let m = if k > 5 { one("single", "bg", &[g], &real, &cf, 1., false) } else { one("single", "script", &[Script::at(0, i as u32)], &script, &cf, 1., false) };
            let kids: Vec<&Value> = m["init"].as_array().unwrap().iter().filter(|x| x["par"] == 1).collect();
            json!({"ok": m["fin"]["ok"], "pol": m["pol0"][0]["pol"], "mi": kids.iter().map(|x| x["mi"].clone()).collect::<Vec<_>>(),
                   "pri": kids.iter().map(|x| x["pri"].clone()).collect::<Vec<_>>()})
        }).collect();
        t.put(&json!({"noise": "single", "eps": micro(eps), "alpha": (alpha * 100.).round() as i64, "heads": roots}));
    }
    println!("{}", json!({"records": t.done(), "roots": 8 * n + more}));
}

/// How often playouts from one position have each result: many rollout searches of one iteration
pub fn playouts(a: &Args) {
    let mut rng = a.rng();
    let mut t = Trace::new(a.out());
    let n = a.num("n", 3000);
    // playouts of hundreds of turns, ending right before, right at or long before the limit
    let (long, few) = (a.num("long", 8), 12);
    let mut all = 0;
    for k in 0..a.num("graphs", 6) + long {
        let far = k < long;
        let n = if far { few } else { n };
        all += n;
        let (d, w, m) = (rng.gen_range(2..5), 4, rng.gen_range(2..5));
        let len = rng.gen_range(if k % 2 == 0 { 60..260 } else { 257..420 });
        let w0 = if rng.gen() { 1 } else { -1 };
        let mut g = if far { chain(&mut rng, len, w0) } else { layered(&mut rng, d, w, m) };
        // the root has one move, so that every search plays out from the same position
        let x = g.v.len() as u32;
        g.v.push(Vert { p: if rng.gen() { 1 } else { -1 }, w: None, mv: vec![3], to: vec![0], pass: 0 });
        g.start = x;
        let g = set_graph(g);
        let limit = if rng.gen_bool(0.4) { rng.gen_range(1..=d) } else { 30 };
        let limit = if !far { limit } else { match k % 4 { 0 => len + 1, 1 => len + 1 + rng.gen_range(0..3), 2 => len, _ => 1000 } };
        let cf = Conf { iterations: 1, limit, ..Conf::default() };
        let mc = cf.mcts();
        let mut cnt = [0usize; 3];
        let mut bad = 0;
        for _ in 0..n {
            verif::start();
            let s = Script::at(x, 0);
            let r = guarded(|| mct_search(s, s.get_player(), &mc));
            let snaps = verif::take();
            let v = snaps.last().and_then(|s| s.first()).map(|r| r.value * s.get_player() as f32);
            match (r, v) { (Ok(_), Some(v)) if v == -1. || v == 0. || v == 1. => cnt[(v as i32 + 1) as usize] += 1, _ => bad += 1 }
        }
        t.put(&json!({"playouts": cnt, "bad": bad, "runs": n, "limit": limit, "from": 1, "graph": g.json()}));
    }
    println!("{}", json!({"records": t.done(), "playouts": all}));
}
