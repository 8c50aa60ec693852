//! Backgammon: positions and whole games, as the implementation sees them.
use crate::{posgen, util::*};
use die_e::{backgammon::backgammon_logic::{Actions, Backgammon, Board}, base::LearnableGame};
use rand::prelude::*;
use serde_json::{json, Map, Value};

pub fn board_json(b: &Board) -> Value { json!({"pts": b.0, "bar": [b.1.0, b.1.1], "off": [b.2.0, b.2.1]}) }

pub fn state_json(g: &Backgammon) -> Value {
    json!({"pts": g.board.0, "bar": [g.board.1.0, g.board.1.1], "off": [g.board.2.0, g.board.2.1],
           "p": g.player, "d": [g.roll.0, g.roll.1], "s": g.is_second_play})
}

pub fn make(b: Board, p: i8, d: (u8, u8), s: bool) -> Backgammon {
    let mut g = Backgammon::new();
    g.board = b; g.player = p; g.roll = d; g.is_second_play = s;
    g
}

/// a position: from a generated family or from inside a random game
pub fn random_position(rng: &mut StdRng, i: usize) -> Backgammon {
    let fam = i % (posgen::FAMILIES + 2);
    if fam >= posgen::FAMILIES { return walk_position(rng); }
    let b = posgen::gen(rng, fam);
    let p = if rng.gen() { 1 } else { -1 };
    let d = if rng.gen_bool(0.25) { let x = rng.gen_range(1..=6); (x, x) } else { (rng.gen_range(1..=6), rng.gen_range(1..=6)) };
    let s = d.0 == d.1 && rng.gen();
    make(b, p, d, s)
}

/// random walk by the code's own moves; used as a source of positions only
fn walk_position(rng: &mut StdRng) -> Backgammon {
    let n = if rng.gen_bool(0.3) { rng.gen_range(0..6) } else { rng.gen_range(0..160) };
    let mut g = Backgammon::new();
    g.roll = (rng.gen_range(1..=6), rng.gen_range(1..=6));
    for _ in 0..n {
        let mut h = g;
        let ok = guarded(|| {
            let m = h.get_valid_moves();
            match m.choose(rng) { Some(a) => h.apply_move(a), None => h.skip_turn() }
            if !h.is_second_play { h.roll = (rng.gen_range(1..=6), rng.gen_range(1..=6)); }
            h.check_winner().is_none()
        });
        if ok != Ok(true) { break; }
        g = h;
    }
    g
}

fn won_position(rng: &mut StdRng) -> Backgammon {
    let family = rng.gen_range(0..posgen::FAMILIES + 2);
    let mut g = random_position(rng, family);
    let k: i8 = if rng.gen() { 1 } else { -1 };
    for x in g.board.0.iter_mut() { if *x * k > 0 { *x = 0; } }
    if k == -1 { g.board.1.0 = 0; g.board.2.0 = 15 } else { g.board.1.1 = 0; g.board.2.1 = 15 }
    g
}

fn codes_of(m: &[Actions], enc: impl Fn(&Actions) -> u32, dec: impl Fn(u32) -> Actions) -> (Vec<i64>, Vec<Value>) {
    m.iter().map(|a| {
        let c = guarded(|| enc(a)).map(|c| c as i64).unwrap_or(-1);
        let d = if c < 0 { json!([[-9, -9]]) } else { guarded(|| dec(c as u32)).map(|q| json!(q)).unwrap_or(json!([[-9, -9]])) };
        (c, d)
    }).unzip()
}

pub fn positions(a: &Args) {
    let mut rng = a.rng();
    let want: Vec<&str> = a.str("want").split(',').collect();
    let has = |w: &str| want.contains(&w);
    let mut t = Trace::new(a.out());
    let n = a.num("n", 1000);
    for i in a.part(n) {
        let g = if has("win") && i % 5 == 0 { won_position(&mut rng) } else { random_position(&mut rng, i) };
        let mut m = state_json(&g).as_object().unwrap().clone();
        m.insert("k".into(), json!("pos"));
        let plays = guarded(|| g.get_valid_moves());
        m.insert("ok".into(), json!(plays.is_ok()));
        let plays = plays.unwrap_or_default();
        if has("plays") {
            m.insert("plays".into(), json!(plays));
            let mut sw = g; sw.roll = (g.roll.1, g.roll.0);
            m.insert("swapped".into(), json!(guarded(|| sw.get_valid_moves()).unwrap_or_default()));
        }
        if has("codes") {
            m.insert("plays".into(), json!(plays));
            let (c, d) = codes_of(&plays, |q| LearnableGame::encode(&g, q), |c| LearnableGame::decode(&g, c));
            let (ac, ad) = codes_of(&plays, |q| encode_alone(&g, q), |c| decode_alone(&g, c));
            // crossed: each decoder reads the other encoder's code
            let x: Vec<Value> = c.iter().map(|&c| if c < 0 { json!([]) } else { json!(guarded(|| decode_alone(&g, c as u32)).unwrap_or_default()) }).collect();
            let y: Vec<Value> = ac.iter().map(|&c| if c < 0 { json!([]) } else { json!(guarded(|| LearnableGame::decode(&g, c as u32)).unwrap_or_default()) }).collect();
            let e = guarded(|| LearnableGame::encode(&g, &vec![])).map(|c| c as i64).unwrap_or(-1);
            let ae = guarded(|| encode_alone(&g, &vec![])).map(|c| c as i64).unwrap_or(-1);
            let ed = guarded(|| LearnableGame::decode(&g, e as u32)).unwrap_or(vec![(-9, -9)]);
            for (k, v) in [("codes", json!(c)), ("dec", json!(d)), ("acodes", json!(ac)), ("adec", json!(ad)), ("xdec", json!(x)),
                           ("ydec", json!(y)), ("empty", json!(e)), ("aempty", json!(ae)), ("edec", json!(ed)),
                           ("space", json!(Backgammon::ACTION_SPACE_SIZE))] { m.insert(k.into(), v); }
        }
        if has("next") {
            // apply_move of up to 6 offered plays and a pass
            let mut ch: Vec<&Actions> = plays.iter().collect();
            ch.shuffle(&mut rng);
            ch.truncate(6);
            let after: Vec<Value> = ch.iter().map(|q| {
                let mut h = g;
                let ok = guarded(|| h.apply_move(q)).is_ok();
                let alone = guarded(|| Backgammon::get_next_state(g.board, q, g.player));
                json!({"q": q, "ok": ok && alone.is_ok(), "st": state_json(&h), "alone": board_json(&alone.unwrap_or(g.board))})
            }).collect();
            m.insert("after".into(), json!(after));
            let mut h = g;
            let ok = guarded(|| h.skip_turn()).is_ok();
            m.insert("pass".into(), json!({"ok": ok, "st": state_json(&h)}));
        }
        if has("win") {
            m.insert("nplays".into(), json!(plays.len()));
            m.insert("win".into(), win_json(&g));
        }
        if has("input") { m.insert("input".into(), input_json(&g)); }
        t.put(&Value::Object(m));
    }
    println!("{}", json!({"records": t.done()}));
}

fn win_json(g: &Backgammon) -> Value {
    json!([g.check_winner().unwrap_or(0), Backgammon::check_win_without_player(g.board).unwrap_or(0),
           if Backgammon::check_win(g.board, -1) { -1 } else { 0 }, if Backgammon::check_win(g.board, 1) { 1 } else { 0 }])
}

fn input_json(g: &Backgammon) -> Value {
    match guarded(|| { let t = g.as_tensor(); (t.size(), ints(&t)) }) {
        Ok((s, v)) if s.len() == 4 && s[0] == 1 && v.len() as i64 == s[1] * s[2] * s[3] => {
            let planes: Vec<&[i64]> = v.chunks((s[2] * s[3]) as usize).collect();
            json!({"shape": s, "planes": planes, "declared": [Backgammon::N_INPUT_CHANNELS, Backgammon::CONV_OUTPUT_SIZE]})
        }
        Ok((s, _)) => json!({"shape": s, "planes": [], "declared": []}),
        Err(_) => json!({"shape": [], "planes": [], "declared": []}),
    }
}

// the inherent (stand-alone) encoder, as opposed to the trait's
fn encode_alone(g: &Backgammon, q: &Actions) -> u32 { Backgammon::encode(g, q) }
fn decode_alone(g: &Backgammon, c: u32) -> Actions { Backgammon::decode(g, c) }

/// whole games, step by step, by the public interface that self-play and matches use
pub fn games(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 50);
    let max = a.num("steps", 300);
    let mut t = Trace::new(a.out());
    let mut steps = 0;
    for i in a.part(n) {
        let mut g = if i % 2 == 0 {
            let mut g = Backgammon::new();
            if i % 4 == 0 { g.skip_turn() } else { g.roll_die(); }
            g
        } else { let k = rng.gen(); random_position(&mut rng, k) };
        let mut ev: Vec<Value> = vec![];
        let mut start = state_json(&g);
        start["win"] = win_json(&g);
        let style = rng.gen_range(0..4);
        while g.check_winner().is_none() && ev.len() < max {
            let Ok(plays) = guarded(|| g.get_valid_moves()) else { break };
            let before = g;
            let mut e = Map::new();
            let pass_anyway = rng.gen_bool(0.03);
            let ok = match choose(&mut rng, &g, &plays, style) {
                Some(q) if !pass_anyway => {
                    e.insert("k".into(), json!("play"));
                    e.insert("q".into(), json!(q));
                    guarded(|| g.apply_move(&q)).is_ok()
                }
                _ => { e.insert("k".into(), json!("pass")); guarded(|| g.skip_turn()).is_ok() }
            };
            let _ = before;
            e.insert("ok".into(), json!(ok));
            e.insert("offers".into(), json!(plays.len()));
            e.insert("st".into(), state_json(&g));
            e.insert("win".into(), win_json(&g));
            ev.push(Value::Object(e));
            steps += 1;
            if !ok { break; }
        }
        t.put(&json!({"start": start, "ev": ev}));
    }
    println!("{}", json!({"games": t.done(), "steps": steps}));
}

fn choose(rng: &mut StdRng, g: &Backgammon, plays: &[Actions], style: usize) -> Option<Actions> {
    if plays.is_empty() { return None; }
    let hits = |q: &Actions| {
        let b = Backgammon::get_next_state(g.board, q, g.player);
        if g.player == -1 { b.1.1 as i32 - g.board.1.1 as i32 } else { b.1.0 as i32 - g.board.1.0 as i32 }
    };
    let sample: Vec<&Actions> = plays.choose_multiple(rng, 12).collect();
    Some(match style {
        0 => plays.choose(rng).unwrap().clone(),
        1 => (*sample.iter().max_by_key(|q| guarded(|| hits(q)).unwrap_or(0)).unwrap()).clone(),
        // runs home and bears off quickly
        2 => (*sample.iter().max_by_key(|q| q.iter().filter(|s| s.1 == -1).count()).unwrap()).clone(),
        _ => plays[rng.gen_range(0..plays.len().min(3))].clone(),
    })
}

/// how often each pair of dice comes up, by each way of getting fresh dice and by all of them in turn
pub fn dice(a: &Args) {
    let n = a.num("n", 72000);
    let mut rng = a.rng();
    let mut t = Trace::new(a.out());
    let ways = ["roll", "play", "pass", "second"];
    for how in ["roll", "play", "pass", "second", "any", "game"] {
        let mut bad = 0;
        let mut rolls: Vec<(u8, u8)> = vec![];
        let b = Backgammon::get_initial_state();
        let mut game = make(b, -1, (2, 1), false);
        let n = if how == "game" { n / 10 } else { n };
        while rolls.len() + bad < n {
            let i = rolls.len();
            let p = if i % 2 == 0 { 1 } else { -1 };
            let mut g = make(b, p, (2, 1), false);
            let d = match if how == "any" { *ways.choose(&mut rng).unwrap() } else { how } {
                "roll" => { let r = g.roll_die(); if r != g.roll { bad += 1 }; r }
                "play" => { let q = vec![if p == 1 { (0, 1) } else { (23, 22) }]; g.apply_move(&q); g.roll }
                "second" => { g.roll = (1, 1); g.is_second_play = true; let q = vec![if p == 1 { (0, 1) } else { (23, 22) }]; g.apply_move(&q); g.roll }
                // the dice of games, one after the other
                "game" => {
                    if i % 400 == 0 || game.check_winner().is_some() { game = make(b, if rng.gen() { 1 } else { -1 }, (rng.gen_range(1..=6), rng.gen_range(1..=6)), false); }
                    let was = game.player;
                    while game.player == was {
                        let q = game.get_valid_moves().first().cloned();
                        match q { Some(q) => game.apply_move(&q), None => game.skip_turn() }
                    }
                    game.roll
                }
                _ => { g.skip_turn(); g.roll }
            };
            if (1..=6).contains(&d.0) && (1..=6).contains(&d.1) { rolls.push(d) } else { bad += 1 }
        }
        let mut cnt = [[0u32; 6]; 6];
        for d in &rolls { cnt[d.0 as usize - 1][d.1 as usize - 1] += 1; }
        // a die of one roll and a die of a later one
        let mut later = vec![];
        for lag in [1, 2, 3, 5] {
            let mut m = [[[0u32; 6]; 6]; 4];
            let mut same = 0;
            for w in rolls.windows(lag + 1) {
                let (x, y) = (w[0], w[lag]);
                for (k, (u, v)) in [(x.0, y.0), (x.0, y.1), (x.1, y.0), (x.1, y.1)].iter().enumerate() { m[k][*u as usize - 1][*v as usize - 1] += 1; }
                if x == y { same += 1 }
            }
            later.push(json!({"lag": lag, "n": rolls.len().saturating_sub(lag), "tables": m, "same": same}));
        }
        let stretches: Vec<Value> = [36usize, 144, 720].iter().map(|&w| {
            let x: i64 = rolls.chunks_exact(w).map(|c| {
                let mut m = [0i64; 36];
                for d in c { m[(d.0 as usize - 1) * 6 + d.1 as usize - 1] += 1; }
                m.iter().map(|k| 36 * k * k).sum::<i64>() - (w * w) as i64
            }).sum();
            json!({"w": w, "k": rolls.len() / w, "x": x})
        }).collect();
        t.put(&json!({"how": how, "n": rolls.len() + bad, "count": cnt, "bad": bad, "later": later, "stretches": stretches}));
    }
    println!("{}", json!({"records": t.done()}));
}
