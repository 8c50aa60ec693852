//! Shared helpers: arguments, trace files, panics as data, configurations.
use rand::prelude::*;
use serde_json::Value;
use std::{
    collections::HashMap,
    fs::File,
    io::{BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
};

pub struct Args { pub cmd: String, map: HashMap<String, String> }

impl Args {
    pub fn parse() -> Self {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().expect("subcommand");
        let rest: Vec<String> = it.collect();
        let map = rest.chunks(2).map(|c| (c[0].trim_start_matches('-').to_string(), c[1].clone())).collect();
        Args { cmd, map }
    }
    pub fn get(&self, k: &str) -> Option<&str> { self.map.get(k).map(|s| s.as_str()) }
    pub fn str(&self, k: &str) -> &str { self.get(k).unwrap_or_else(|| panic!("missing --{k}")) }
    pub fn num(&self, k: &str, dflt: usize) -> usize { self.get(k).map(|s| s.parse().unwrap()).unwrap_or(dflt) }
    /// the numbers of the records of this part of a recording
    pub fn part(&self, n: usize) -> std::ops::Range<usize> { let f = self.num("first", 0); f..f + n }
    pub fn rng(&self) -> StdRng { StdRng::seed_from_u64(self.num("seed", 1) as u64) }
    pub fn out(&self) -> PathBuf { PathBuf::from(self.str("out")) }
}

/// One JSON value per line
pub struct Trace { w: BufWriter<File>, pub n: usize }

impl Trace {
    pub fn new(path: PathBuf) -> Self { Trace { w: BufWriter::new(File::create(path).unwrap()), n: 0 } }
    pub fn put(&mut self, v: &Value) { writeln!(self.w, "{v}").unwrap(); self.n += 1; }
    pub fn done(mut self) -> usize { self.w.flush().unwrap(); self.n }
}

/// Runs code under test: a panic is a result like any other
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".into() }
    })
}

pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }

pub struct Conf {
    pub temperature: f64, pub learn_iterations: usize, pub self_play_iterations: usize, pub num_epochs: usize,
    pub training_batch_size: usize, pub num_self_play_batches: usize, pub iterations: usize, pub c: f64,
    pub limit: usize, pub alpha: f64, pub eps: f64, pub wd: f64, pub lr: f64,
}

impl Default for Conf {
    fn default() -> Self {
        Conf { temperature: 1.0, learn_iterations: 1, self_play_iterations: 1, num_epochs: 1, training_batch_size: 64,
               num_self_play_batches: 4, iterations: 8, c: 2.0, limit: 400, alpha: 0.3, eps: 0.25, wd: 0.0, lr: 0.001 }
    }
}

impl Conf {
    pub fn toml(&self) -> String {
        format!("temperature = {:?}\nlearn_iterations = {}\nnum_epochs = {}\ntraining_batch_size = {}\nself_play_iterations = {}\nnum_self_play_batches = {}\niterations = {}\nexploration_const = {:?}\nsimulate_round_limit = {}\ndirichlet_alpha = {:?}\ndirichlet_epsilon = {:?}\nwd = {:?}\nlr = {:?}\n",
            self.temperature, self.learn_iterations, self.num_epochs, self.training_batch_size, self.self_play_iterations,
            self.num_self_play_batches, self.iterations, self.c, self.limit, self.alpha, self.eps, self.wd, self.lr)
    }
    pub fn config(&self) -> config::Config {
        config::Config::builder().add_source(config::File::from_str(&self.toml(), config::FileFormat::Toml)).build().unwrap()
    }
    pub fn mcts(&self) -> die_e::MctsConfig { die_e::MctsConfig::from_config(&self.config()).unwrap() }
}

/// exact integers of a tensor that is supposed to hold small integers, 9999 for anything else
pub fn ints(t: &tch::Tensor) -> Vec<i64> {
    let f: Vec<f64> = Vec::try_from(&t.flatten(0, -1).to_dtype(tch::Kind::Double, false, true)).unwrap();
    f.into_iter().map(|x| if x.fract() == 0.0 && x.abs() < 9000.0 { x as i64 } else { 9999 }).collect()
}
