//! Generators of backgammon positions (always 15 checkers a side, no point shared).
use die_e::backgammon::backgammon_logic::Board;
use rand::prelude::*;

pub const FAMILIES: usize = 14;

fn idx(p: i8) -> usize { if p == -1 { 0 } else { 1 } }

struct B { pts: [i8; 24], bar: [u8; 2], off: [u8; 2] }

impl B {
    fn new() -> Self { B { pts: [0; 24], bar: [0; 2], off: [0; 2] } }
    fn board(self) -> Board { (self.pts, (self.bar[0], self.bar[1]), (self.off[0], self.off[1])) }
    /// distance (1..=24) seen from side p -> point
    fn at(p: i8, d: usize) -> usize { if p == -1 { d - 1 } else { 24 - d } }
    fn count(&self, p: i8) -> i32 {
        let k = idx(p);
        self.pts.iter().map(|&x| if x * p > 0 { (x * p) as i32 } else { 0 }).sum::<i32>()
            + self.bar[k] as i32 + self.off[k] as i32
    }
    fn put(&mut self, p: i8, d: usize, n: i8) -> bool {
        let i = Self::at(p, d);
        if self.pts[i] * p < 0 { return false; }
        self.pts[i] += p * n;
        true
    }
    /// place the rest of p's checkers one at a time on distances in `ds`
    fn scatter(&mut self, rng: &mut StdRng, p: i8, ds: std::ops::RangeInclusive<usize>, mut n: i32) {
        let mut tries = 0;
        while n > 0 && tries < 400 {
            tries += 1;
            let d = rng.gen_range(ds.clone());
            if self.put(p, d, 1) { n -= 1; }
        }
        // what did not fit is borne off or, if it would all be off, goes to the bar
        let k = idx(p);
        if n > 0 { self.bar[k] += n as u8; }
    }
    fn clump(&mut self, rng: &mut StdRng, p: i8, ds: std::ops::RangeInclusive<usize>, mut n: i32) {
        let mut tries = 0;
        while n > 0 && tries < 200 {
            tries += 1;
            let d = rng.gen_range(ds.clone());
            let m = rng.gen_range(1..=n.min(5));
            if self.put(p, d, m as i8) { n -= m; }
        }
        let k = idx(p);
        if n > 0 { self.bar[k] += n as u8; }
    }
}

pub fn gen(rng: &mut StdRng, family: usize) -> Board {
    loop {
        let mut b = B::new();
        let p: i8 = if rng.gen() { 1 } else { -1 };
        let q = -p;
        match family {
            // loose contact everywhere
            0 => { b.scatter(rng, p, 1..=24, 15); b.scatter(rng, q, 1..=24, 15); }
            1 => { b.clump(rng, p, 1..=24, 15); b.clump(rng, q, 1..=24, 15); }
            // p on the bar against a strong or closed home board of q
            2 => {
                let n = rng.gen_range(1..=4); b.bar[idx(p)] = n;
                for d in 1..=6 { if rng.gen_bool(0.6) { b.put(q, d, 2); } }
                let r = 15 - b.count(q); b.scatter(rng, q, 1..=24, r);
                b.scatter(rng, p, 1..=24, 15 - n as i32);
            }
            // both sides on the bar
            3 => {
                let top = if rng.gen_bool(0.3) { 12 } else { 3 };
                let n = rng.gen_range(1..=top); let m = rng.gen_range(1..=top);
                b.bar[idx(p)] = n; b.bar[idx(q)] = m;
                b.clump(rng, p, 1..=24, 15 - n as i32); b.clump(rng, q, 1..=24, 15 - m as i32);
            }
            // p bears off, q has checkers in p's home (blots, points) or waits on the bar
            4 | 5 => {
                let off = rng.gen_range(0..=14u8); b.off[idx(p)] = off;
                if rng.gen_bool(0.8) {
                    let nb = rng.gen_range(1..=4);
                    for _ in 0..nb { let i = rng.gen_range(19..=24); let m = rng.gen_range(1..=3); b.put(q, i, m); }
                }
                if rng.gen_bool(0.3) { b.bar[idx(q)] = rng.gen_range(1..=2); }
                if family == 4 { b.scatter(rng, p, 1..=6, 15 - off as i32); } else { b.clump(rng, p, 1..=6, 15 - off as i32); }
                if b.bar[idx(p)] > 0 { continue; }
                let r = 15 - b.count(q); if r < 0 { continue; }
                if rng.gen_bool(0.5) { b.off[idx(q)] = rng.gen_range(0..=r.min(14) as u8); }
                let r = 15 - b.count(q);
                b.scatter(rng, q, 1..=24, r);
            }
            // last few checkers of p, q anywhere
            6 => {
                let left = rng.gen_range(1..=3); b.off[idx(p)] = 15 - left as u8;
                let far = if rng.gen_bool(0.5) { 6 } else { 24 };
                b.scatter(rng, p, 1..=far, left);
                let ql = rng.gen_range(1..=6); b.off[idx(q)] = 15 - ql as u8;
                b.scatter(rng, q, 1..=24, ql);
            }
            // all home but one straggler
            7 => {
                let off = rng.gen_range(0..=12u8); b.off[idx(p)] = off;
                let d = rng.gen_range(7..=13); b.put(p, d, 1);
                b.scatter(rng, p, 1..=6, 14 - off as i32);
                let ql = rng.gen_range(1..=15); b.off[idx(q)] = 15 - ql as u8;
                b.clump(rng, q, 1..=24, ql);
            }
            // one or two movable checkers against primes: only one die playable
            8 => {
                b.clump(rng, q, 1..=24, 15);
                let left = rng.gen_range(1..=3); b.off[idx(p)] = 15 - left as u8;
                b.scatter(rng, p, 1..=24, left);
                for _ in 0..2 { let d = rng.gen_range(1..=24); let i = B::at(p, d);
                    if b.pts[i] * q == 1 { b.pts[i] += q; } }
                // trim q back to 15
                while b.count(q) > 15 { let i = rng.gen_range(0..24); if b.pts[i] * q > 1 { b.pts[i] -= q; } else if b.count(q) > 15 && b.bar[idx(q)] > 0 { b.bar[idx(q)] -= 1; } }
            }
            // q primes: runs of made points
            9 => {
                let s = rng.gen_range(1..=19); let len = rng.gen_range(4..=6);
                for d in s..(s + len).min(25) { b.put(q, d, 2); }
                let r = 15 - b.count(q); b.scatter(rng, q, 1..=24, r);
                if rng.gen_bool(0.4) { b.bar[idx(p)] = rng.gen_range(1..=3); }
                let r = 15 - b.count(p); b.clump(rng, p, 1..=24, r);
            }
            // many blots on both sides
            10 => {
                let n = rng.gen_range(0..=5); b.off[idx(p)] = n; let m = rng.gen_range(0..=5); b.off[idx(q)] = m;
                b.scatter(rng, p, 1..=24, 15 - n as i32); b.scatter(rng, q, 1..=24, 15 - m as i32);
                if rng.gen_bool(0.5) { for i in 0..24 { if b.pts[i].abs() == 2 && rng.gen_bool(0.5) { let s = b.pts[i].signum(); b.pts[i] -= s; b.off[idx(s)] += 1; } } }
            }
            // anything: checkers borne off, on the bar and in play in any proportion
            11 | 12 => {
                for s in [p, q] {
                    let off = if rng.gen() { rng.gen_range(0..=14u8) } else { 0 };
                    let bar = if rng.gen() { rng.gen_range(0..=(15 - off)) } else { rng.gen_range(0..=1).min(15 - off) };
                    b.off[idx(s)] = off; b.bar[idx(s)] = bar;
                    let far = *[6, 12, 24, 24].choose(rng).unwrap();
                    let left = 15 - off as i32 - bar as i32;
                    if rng.gen() { b.scatter(rng, s, 1..=far, left) } else { b.clump(rng, s, 1..=far, left) }
                }
            }
            // race at the very end, both bearing off
            _ => {
                let l = rng.gen_range(1..=6); b.off[idx(p)] = 15 - l as u8; b.scatter(rng, p, 1..=6, l);
                let m = rng.gen_range(1..=6); b.off[idx(q)] = 15 - m as u8; b.scatter(rng, q, 1..=6, m);
            }
        }
        if b.count(p) != 15 || b.count(q) != 15 { continue; }
        if b.off[0] == 15 || b.off[1] == 15 { continue; }
        return b.board();
    }
}

/// a few checkers a side left, close to the end
pub fn nearly_done(rng: &mut StdRng) -> Board {
    loop {
        let mut b = B::new();
        for p in [-1i8, 1] {
            let n = rng.gen_range(1..=3);
            b.off[idx(p)] = 15 - n as u8;
            let far = if rng.gen_bool(0.2) { 20 } else { 7 };
            b.scatter(rng, p, 1..=far, n);
        }
        if b.count(1) == 15 && b.count(-1) == 15 { return b.board(); }
    }
}
