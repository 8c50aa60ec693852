//! Training steps: how far the output biases move, and what they should move by.
use crate::{learn::scratch, nets, util::*};
type Plain = crate::store::Plain<8>;
use die_e::{alphazero::{alphazero::{AlphaZero, MemoryFragment}, nnet::ResNet}, base::LearnableGame};
use rand::prelude::*;
use serde_json::{json, Value};
use std::{fs, path::PathBuf};
use tch::Tensor;

const A: usize = Plain::ACTION_SPACE_SIZE as usize;
fn bias(net: &ResNet, n: i64) -> Tensor { net.vs.variables().into_iter().find(|(k, t)| k.starts_with("bias") && t.size() == [n]).map(|(_, t)| t).unwrap() }
fn put(t: &mut Tensor, v: &[f64]) { tch::no_grad(|| t.copy_(&Tensor::from_slice(v).to_kind(tch::Kind::Float))) }
/// policies and values in the form used in training, without leaving a trace
fn look(net: &ResNet, xs: &Tensor) -> (Vec<Vec<f64>>, Vec<f64>) {
    let kept: Vec<(String, Tensor)> = net.vs.variables().into_iter().map(|(k, t)| (k, t.copy())).collect();
    let (l, v) = tch::no_grad(|| net.forward_train(xs, true));
    let mut vars = net.vs.variables();
    tch::no_grad(|| for (k, t) in kept { vars.get_mut(&k).unwrap().copy_(&t) });
    (nets::floats(&l.softmax(1, tch::Kind::Float)).chunks(A).map(|c| c.to_vec()).collect(), nets::floats(&v))
}
fn spread(r: &mut StdRng, sharp: bool) -> Vec<f64> {
    let mut w: Vec<f64> = (0..A).map(|_| if sharp { r.gen_range(0f64..1.).powi(6) } else { r.gen_range(0.05..1.) }).collect();
    let s: f64 = w.iter().sum();
    w.iter_mut().for_each(|x| *x /= s);
    w
}
fn m6(x: f64) -> i64 { (x * 1e6).round() as i64 }
fn m4(x: f64) -> i64 { (x * 1e4).round() as i64 }

/// a pass over several batches, and steps over the same batches in every order they may have had
fn pass(r: &mut StdRng) -> Value {
    let (n, size) = *[(2usize, 1usize), (3, 1), (4, 1), (3, 2), (4, 2)].choose(r).unwrap();
    let lr = *[1e-3, 5e-3].choose(r).unwrap();
    let wd = *[0., 0.2, 1.].choose(r).unwrap();
    let cf = Conf { training_batch_size: size, lr, wd, ..Conf::default() };
    let net = nets::random::<Plain>(r.gen_range(1..100000), 1., 2.);
    put(&mut bias(&net, A as i64), &(0..A).map(|_| r.gen_range(-0.4..0.4)).collect::<Vec<_>>());
    net.vs.save("net.ot").unwrap();
    let data: Vec<MemoryFragment> = (0..n).map(|_| MemoryFragment { outcome: r.gen_range(-1..=1), ps: Tensor::from_slice(&spread(r, true)).to_kind(tch::Kind::Float),
        state: Tensor::from_slice(&(0..192).map(|_| r.gen_range(-1f32..1.)).collect::<Vec<f32>>()).view([1, 3, 8, 8]) }).collect();
    let copy = |k: &[usize]| -> Vec<MemoryFragment> { k.iter().map(|&k| MemoryFragment { outcome: data[k].outcome, ps: data[k].ps.shallow_clone(), state: data[k].state.shallow_clone() }).collect() };
    let run = |batches: &[Vec<usize>]| {
        let mut z = AlphaZero::from_config::<Plain>(Some(PathBuf::from("net.ot")), &cf.config());
        let (p, v) = (nets::floats(&bias(&z.model, A as i64)), nets::floats(&bias(&z.model, 1)));
        for b in batches { z.train(&mut copy(b)) }
        nets::floats(&bias(&z.model, A as i64)).iter().zip(&p).chain(nets::floats(&bias(&z.model, 1)).iter().zip(&v)).map(|(x, y)| ((x - y) / lr * 1e3).round() as i64).collect::<Vec<_>>()
    };
    let ev = guarded(|| {
        let whole = run(&[(0..n).collect()]);
        // all ways to deal the samples into batches, the order within a batch left aside
        let mut ways: Vec<Vec<Vec<usize>>> = vec![vec![]];
        for b in (0..n).step_by(size) {
            let len = size.min(n - b);
            ways = ways.into_iter().flat_map(|w| {
                let left: Vec<usize> = (0..n).filter(|k| !w.iter().flatten().any(|x| x == k)).collect();
                (0..1u32 << n).filter(|m| m.count_ones() as usize == len).map(|m| (0..n).filter(|k| m >> k & 1 == 1).collect::<Vec<usize>>()).filter(|c| c.iter().all(|k| left.contains(k)))
                    .map(|c| { let mut w = w.clone(); w.push(c); w }).collect::<Vec<_>>()
            }).collect();
        }
        json!({"whole": whole, "ways": ways.iter().map(|w| run(w)).collect::<Vec<_>>()})
    });
    json!({"k": "pass", "ok": ev.is_ok(), "n": n, "size": size, "ev": [], "pass": ev.unwrap_or(json!({"whole": [0], "ways": []}))})
}

pub fn steps(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 60);
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    let mut total = 0;
    for i in a.part(n) {
        let dir = scratch(&root, i);
        let r = &mut rng;
        if i % 8 == 7 {
            t.put(&pass(r));
            std::env::set_current_dir("/").unwrap();
            fs::remove_dir_all(&dir).unwrap();
            total += 1;
            continue;
        }
        let wd = if i % 3 == 0 { 0. } else { *[0.2, 0.5, 1.].choose(r).unwrap() };
        // many steps: large derivatives first, then smaller ones
        let many = i % 8 == 2;
        let wd = if many { 0. } else { wd };
        let lr = if many { 1e-4 } else { *[1e-4, 3e-4, 1e-3, 5e-3].choose(r).unwrap() };
        let cf = Conf { training_batch_size: 256, lr, wd, ..Conf::default() };
        let net = nets::random::<Plain>(r.gen_range(1..100000), *[1., 4.].choose(r).unwrap(), 2.);
        // balanced biases of the policy, zero-sum
        let mut pb = vec![0f64; A];
        for k in 0..3 { let x = r.gen_range(0.1..0.4f64); pb[2 * k] = x; pb[2 * k + 1] = -x; }
        put(&mut bias(&net, A as i64), &pb);
        let nsteps = if many && i % 3 == 2 { r.gen_range(80..=110) } else if many { r.gen_range(14..=30) } else if i % 2 == 0 { 1 } else { r.gen_range(2..=3) };
        let batches: Vec<(Tensor, Vec<i8>)> = (0..nsteps).map(|_| { let m = if many { r.gen_range(1..=6i64) } else if r.gen_bool(0.12) { r.gen_range(65..=250) } else { r.gen_range(1..=24) };
            let x = Tensor::from_slice(&(0..m * 192).map(|_| r.gen_range(-1f32..1.)).collect::<Vec<f32>>()).view([m, 3, 8, 8]);
            let lean = r.gen_range(0..4); (x, (0..m).map(|_| if lean < 3 && r.gen_bool(0.7) { lean as i8 - 1 } else { r.gen_range(-1..=1) }).collect()) }).collect();
        // the value's bias: where its change of loss and its decay nearly cancel
        let (x0, z0) = &batches[0];
        let mut vb = r.gen_range(-0.5..0.5f64);
        put(&mut bias(&net, 1), &[vb]);
        if wd > 0. {
            let u: Vec<f64> = look(&net, x0).1.iter().map(|v| v.clamp(-0.9999, 0.9999).atanh() - vb).collect();
            let f = |b: f64| u.iter().zip(z0).map(|(u, z)| { let v = (u + b).tanh(); 2. * (v - *z as f64) * (1. - v * v) }).sum::<f64>() / u.len() as f64 + wd * b;
            let near: Vec<f64> = (0..800).map(|k| k as f64 / 400. - 1.).filter(|b| (0.004..0.03).contains(&f(*b).abs()) && (wd * b).abs() > 0.03).collect();
            if let Some(b) = near.choose(r) { vb = *b; put(&mut bias(&net, 1), &[vb]); }
        }
        let p0 = look(&net, x0).0;
        let mut data: Vec<Vec<MemoryFragment>> = batches.iter().map(|(x, z)| (0..z.len()).map(|j| {
            let sharp = r.gen();
            let ps = spread(r, sharp);
            MemoryFragment { outcome: z[j], ps: Tensor::from_slice(&ps).to_kind(tch::Kind::Float), state: x.get(j as i64).unsqueeze(0) }
        }).collect()).collect();
        if many {
            let (k, n) = (r.gen_range(0..A), data.len());
            let part = r.gen_range(0.3..0.6);
            for (b, d) in data.iter_mut().enumerate() { for m in d.iter_mut() {
                let early = b < n / 3;
                m.outcome = if early || r.gen_bool(part) { 1 } else { 0 };
                m.ps = Tensor::from_slice(&(0..A).map(|j| { let one = if j == k { 1. } else { 0. }; let even = 1. / A as f64; if early { one } else { part * one + (1. - part) * even } }).collect::<Vec<_>>()).to_kind(tch::Kind::Float);
            } }
        }
        if wd > 0. {
            // targets that nearly balance the decay: off by a share of its own for every pair, alike in all samples
            let d: Vec<f64> = (0..A / 2).map(|_| r.gen_range(0.06..0.2) * if r.gen() { 1. } else { -1. }).collect();
            let room = p0.iter().all(|p| p.iter().zip(&pb).all(|(p, b)| p + 1.25 * wd * b.min(0.) > 0.));
            for (j, m) in data[0].iter_mut().enumerate() {
                let ps: Vec<f64> = if room { (0..A).map(|k| p0[j][k] + wd * pb[k] * (1. + if k < 6 { d[k / 2] } else { 0. })).collect() } else { spread(r, false) };
                m.ps = Tensor::from_slice(&ps).to_kind(tch::Kind::Float);
            }
        }
        net.vs.save("net.ot").unwrap();
        let ev = guarded(|| {
            let mut z = AlphaZero::from_config::<Plain>(Some(PathBuf::from("net.ot")), &cf.config());
            data.iter_mut().zip(&batches).map(|(d, (x, _))| {
                let ts: Vec<Vec<f64>> = d.iter().map(|m| nets::floats(&m.ps)).collect();
                let zs: Vec<i64> = d.iter().map(|m| m.outcome as i64).collect();
                let (p, v) = look(&z.model, x);
                let at = |m: &ResNet| (nets::floats(&bias(m, A as i64)), nets::floats(&bias(m, 1))[0]);
                let before = at(&z.model);
                z.train(d);
                let after = at(&z.model);
                json!({"p": p.iter().map(|x| x.iter().map(|y| m6(*y)).collect::<Vec<_>>()).collect::<Vec<_>>(), "t": ts.iter().map(|x| x.iter().map(|y| m6(*y)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                    "v": v.iter().map(|x| m4(*x)).collect::<Vec<_>>(), "z": zs,
                    "pb": before.0.iter().map(|x| m6(*x)).collect::<Vec<_>>(), "vb": m6(before.1),
                    // in thousandths of the learning rate
                    "dp": (0..A).map(|k| ((after.0[k] - before.0[k]) / lr * 1e3).round() as i64).collect::<Vec<_>>(), "dv": ((after.1 - before.1) / lr * 1e3).round() as i64})
            }).collect::<Vec<Value>>()
        });
        total += nsteps;
        t.put(&json!({"k": "steps", "ok": ev.is_ok(), "wd": (wd * 1000.).round() as i64, "lr": m6(lr), "ev": ev.unwrap_or_default()}));
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&dir).unwrap();
    }
    let _ = fs::remove_dir_all(&root);
    println!("\n{}", json!({"trainings": t.done(), "steps": total}));
}
