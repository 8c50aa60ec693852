//! What is printed: boards, and saved games shown by the replay command.
use crate::{bg, bg::state_json, posgen, util::*};
use die_e::{backgammon::backgammon_logic::Backgammon, base::LearnableGame, tictactoe::TicTacToe, versus::{save_game, Agent, Game}};
use rand::prelude::*;
use serde_json::{json, Value};
use std::{fs, path::Path, process::{Command, Stdio}};

/// the fields of every line; a line of strokes only is called so
fn lines(s: &str, at: char) -> Value {
    let fields = |l: &str| -> Vec<String> { if !l.is_empty() && l.chars().all(|c| "=-_".contains(c)) { vec!["STROKES".into()] } else { l.split(at).map(|x| x.trim().to_string()).collect() } };
    json!(s.lines().map(fields).collect::<Vec<_>>())
}
fn towers(r: &mut StdRng) -> Backgammon {
    // tall stacks, single checkers, many on the bar
    let mut g = bg::random_position(r, 0);
    let mut b = [0i8; 24];
    let (mut bar, mut off) = ([0u8; 2], [0u8; 2]);
    let mut at: Vec<usize> = (0..24).collect();
    at.shuffle(r);
    for k in 0..2 {
        let mut left = 15i8;
        while left > 0 {
            let n = if r.gen() { left } else { r.gen_range(1..=left) };
            match r.gen_range(0..5) { 0 => bar[k] += n as u8, 1 => off[k] += n as u8, _ => b[at.pop().unwrap()] = if k == 0 { -n } else { n } }
            left -= n;
        }
    }
    g.board = (b, (bar[0], bar[1]), (off[0], off[1]));
    g
}
fn any(r: &mut StdRng) -> Backgammon { if r.gen_bool(0.4) { towers(r) } else { let f = r.gen_range(0..posgen::FAMILIES + 2); bg::random_position(r, f) } }
fn anyt(r: &mut StdRng) -> TicTacToe { let mut g = TicTacToe::new(); for c in g.board.iter_mut() { *c = r.gen_range(-1..=1) } if r.gen() { g.skip_turn() } g }

fn output(cli: &str, dir: &Path, args: &[&str]) -> (bool, String) {
    let c = Command::new(cli).args(args).current_dir(dir).env("OMP_NUM_THREADS", "1").stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
    (c.status.success(), String::from_utf8_lossy(&c.stdout).into_owned())
}
/// a saved game, shown
fn replay<T: LearnableGame>(r: &mut StdRng, cli: &str, dir: &Path, flag: &str, s: T) -> Value {
    let agents = [Agent::Random, Agent::Mcts, Agent::Model];
    let mut g = Game::new(agents.choose(r).unwrap().clone(), agents.choose(r).unwrap().clone(), s);
    g.winner = [Agent::None, Agent::Random, Agent::Mcts, Agent::Model].choose(r).unwrap().clone();
    fs::write(dir.join("conf"), Conf::default().toml()).unwrap();
    for e in fs::read_dir(dir).unwrap().flatten() { if e.path().extension().map(|x| x == "json").unwrap_or(false) { fs::remove_file(e.path()).unwrap() } }
    save_game(&g, dir.to_str().unwrap()).unwrap();
    let f = fs::read_dir(dir).unwrap().flatten().map(|e| e.path()).find(|p| p.extension().map(|x| x == "json").unwrap_or(false)).unwrap();
    let v: Value = serde_json::from_slice(&fs::read(&f).unwrap()).unwrap();
    let (ok, out) = output(cli, dir, &["-c", "conf", "-g", flag, "-n", "1", "replay", "-g", f.to_str().unwrap()]);
    // from the line that names the game on
    let from = out.find("Game ID").unwrap_or(0);
    json!({"ok": ok, "id": v["id"], "who": [v["player1"], v["player2"]], "winner": v["winner"], "text": lines(&out[from..], if flag == "backgammon" { '\t' } else { '|' })})
}
pub fn shown(a: &Args) {
    let mut rng = a.rng();
    let (n, cli) = (a.num("n", 1000), a.str("cli"));
    let mut t = Trace::new(a.out());
    let dir = a.out().with_extension("dir");
    fs::create_dir_all(&dir).unwrap();
    for i in a.part(n) {
        if i % 5 == 4 {
            let g = anyt(&mut rng);
            let mut v = json!({"k": "ttt", "b": g.board});
            if i % 100 == 4 { v["replay"] = replay(&mut rng, cli, &dir, "tic-tac-toe", g) } else { v["text"] = lines(&g.to_pretty_str(), '|') }
            t.put(&v);
        } else {
            let mut g = any(&mut rng);
            if rng.gen_bool(0.1) { g.roll = (0, 0) }
            let mut v = state_json(&g);
            v["k"] = json!("bg");
            if i % 50 == 0 { v["replay"] = replay(&mut rng, cli, &dir, "backgammon", g) } else { v["text"] = lines(&g.to_pretty_str(), '\t') }
            t.put(&v);
        }
    }
    fs::remove_dir_all(&dir).unwrap();
    println!("\n{}", json!({"shown": t.done()}));
}
