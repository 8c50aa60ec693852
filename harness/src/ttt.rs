//! What the implementation's tic-tac-toe does in every position (3^9 boards, both sides).
use crate::util::*;
use die_e::{base::LearnableGame, tictactoe::TicTacToe};
use serde_json::json;

fn st(g: &TicTacToe) -> serde_json::Value { json!({"b": g.board, "p": g.get_player()}) }

pub fn all(a: &Args) {
    let mut t = Trace::new(a.out());
    let start = TicTacToe::new().get_player();
    for k in 0..39366usize {
        let (mut x, p) = (k / 2, if k % 2 == 1 { 1i8 } else { -1 });
        let mut b = [0i8; 9];
        for c in b.iter_mut() { *c = (x % 3) as i8 - 1; x /= 3 }
        let d: i32 = b.iter().map(|&c| c as i32).sum();
        if d.abs() > 1 { t.put(&json!({"k": k})); continue; }
        let mut g = TicTacToe::new();
        if g.get_player() != p { g.skip_turn() }
        g.board = b;
        let moves = guarded(|| g.get_valid_moves());
        let w = guarded(|| g.check_winner());
        let mut ok = moves.is_ok() && w.is_ok() && g.get_player() == p && TicTacToe::new().board == [0; 9];
        let moves = moves.unwrap_or_default();
        let mut next = vec![];
        for m in &moves {
            let mut h = g;
            ok &= guarded(|| h.apply_move(m)).is_ok();
            next.push(st(&h));
        }
        let mut h = g;
        h.skip_turn();
        let codes: Vec<i64> = moves.iter().map(|m| guarded(|| g.encode(m)).map(|c| c as i64).unwrap_or(-1)).collect();
        let dec: Vec<i64> = codes.iter().map(|&c| guarded(|| g.decode(c as u32)).map(|c| c as i64).unwrap_or(-1)).collect();
        let input = match guarded(|| { let t = g.as_tensor(); (t.size(), ints(&t)) }) {
            Ok((s, v)) => json!({"shape": s, "planes": v.chunks(9).collect::<Vec<_>>(), "declared": [TicTacToe::N_INPUT_CHANNELS, TicTacToe::CONV_OUTPUT_SIZE]}),
            Err(_) => json!({"shape": [], "planes": [], "declared": []}),
        };
        t.put(&json!({"b": b, "p": p, "ok": ok, "moves": moves, "w": w.ok().flatten().unwrap_or(2), "next": next, "skip": st(&h), "start": start,
                      "codes": codes, "dec": dec, "space": TicTacToe::ACTION_SPACE_SIZE, "input": input}));
    }
    println!("{}", json!({"records": t.done()}));
}
