#!/usr/bin/env python3
"""Planted changes, third batch: the rules of the games. Run as: seeds3.py [ID...]"""
import sys
sys.path.insert(0, '/verif/tools')
from new_seed import make
PRE = r'''
#![allow(dead_code, unused_imports)]
use die_e::{backgammon::backgammon_logic::{Backgammon, Board}, base::LearnableGame, tictactoe::TicTacToe};
fn bg(points: &[(usize, i8)], bar: (u8, u8), off: (u8, u8), player: i8, roll: (u8, u8)) -> Backgammon {
    let mut b: Board = ([0; 24], bar, off);
    for &(p, n) in points { b.0[p] = n }
    let mut g = Backgammon::init_with_fields(b, player, false);
    g.roll = roll; g
}
'''
S = {}
L = 'src/backgammon/backgammon_logic.rs'
def seed(id, prop, edits, needs, breaks, main):
    S[id] = lambda: make(id, prop, edits, needs, breaks, main=PRE + main)

seed('c01-straggler-on-bar-point', 'C01', [(L, 'for i in 0..=17 {', 'for i in 0..17 {')],
 'the second player with all checkers home but some on the bar point', 'bearing off is allowed too early', '''
fn main() {
    let g = bg(&[(17, 1), (20, 3), (23, 2), (0, -3)], (0, 0), (12, 9), 1, (4, 1));
    for m in g.get_valid_moves() { if m[0] != (17, 21) && m[0] != (17, 18) { assert!(m.iter().all(|s| s.1 != -1), "{:?}", m) } }
}''')
seed('c02-same-checkers-same-play', 'C02', [(L, 'if seen_states.insert(current_state) {', 'if seen_states.insert(current_state.0.map(|n| (n * player).max(0))) {')],
 'one checker played with both dice, hitting on one way only', 'the play that comes second is missing', '''
fn main() {
    for hit in [5usize, 8] {
        let g = bg(&[(10, -1), (hit, 1), (0, -14), (23, 14)], (0, 0), (0, 0), -1, (5, 2));
        let ms = g.get_valid_moves();
        assert!(ms.iter().any(|m| m == &vec![(10, 8), (8, 3)]) && ms.iter().any(|m| m == &vec![(10, 5), (5, 3)]), "{:?}", ms);
    }
}''')
seed('c05-single-play-of-double', 'C05', [(L, 'if actions.get(1).is_none() {low_roll_first_flag = false; encode_sum += 26 * 25}', 'if actions.get(1).is_none() {low_roll_first_flag = false; encode_sum += if self.is_second_play {26 * 24} else {26 * 25}}')],
 'a single step in the second play of a double', 'the number decodes to another play', '''
fn main() {
    let mut g = bg(&[(7, -1), (12, -2), (6, 2), (23, 5)], (0, 0), (12, 8), -1, (6, 6));
    g.is_second_play = true;
    for m in g.get_valid_moves() { assert_eq!(LearnableGame::decode(&g, LearnableGame::encode(&g, &m)), m); }
    assert!(g.get_valid_moves().iter().any(|m| m.len() == 1));
}''')
seed('c06-second-of-two', 'C06', [(L, """        if state.2 .0 == 15 {
            return Some(-1);
        } else if""", """        if state.2 .0 == 15 && state.1 .1 == 0 {
            return Some(-1);
        } else if""")],
 'the first player bears off the last checker while the opponent is on the bar', 'the win is not seen', '''
fn main() {
    let mut g = bg(&[(0, -1), (23, 12)], (0, 1), (14, 2), -1, (3, 2));
    g.apply_move(&vec![(0, -1)]);
    assert_eq!(g.check_winner(), Some(-1));
}''')

if __name__ == '__main__':
    for i in sys.argv[1:] or S: S[i](); print(i)
