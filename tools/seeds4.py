#!/usr/bin/env python3
"""Planted changes, fourth batch. Run as: seeds4.py [ID...]"""
import sys
sys.path.insert(0, '/verif/tools')
from new_seed import make
import seeds2
PRE = seeds2.PRE + r'''
fn wide() -> ResNet {
    let net = ResNet::new::<TicTacToe>(VarStore::new(*DEVICE));
    tch::no_grad(|| for (_, mut t) in net.vs.variables() { if t.size().len() == 2 { let _ = t.g_mul_scalar_(8.); } });
    net
}
fn near(a: &Tensor, b: &Tensor) -> bool { (a - b).abs().max().double_value(&[]) < 1e-3 }
'''
S = {}
def seed(id, prop, edits, needs, breaks, main):
    S[id] = lambda: make(id, prop, edits, needs, breaks, main=PRE + main)
N = 'src/alphazero/nnet.rs'
seed('c28-statistics-of-the-batch', 'C28', [(N, """        xs.apply_t(&self.init_block, train)
            .apply_t(&self.res_layer, train)
            .apply_t(&self.policy_head, train)
            .softmax(1, None)""", """        // enough positions to normalise by themselves
        let by_batch = train || xs.size()[0] >= 32;
        xs.apply_t(&self.init_block, train)
            .apply_t(&self.res_layer, train)
            .apply_t(&self.policy_head, by_batch)
            .softmax(1, None)""")],
 'a batch of 32 or more positions at the start of a batch search', 'policies depend on the batch and the running averages move without training', '''
fn main() {
    let net = wide();
    let mut states = vec![];
    let mut g = TicTacToe::new();
    for i in 0..40usize { if i % 5 == 0 { g = TicTacToe::new(); } let m = g.get_valid_moves()[i * 7 % g.get_valid_moves().len()]; if g.check_winner().is_none() { g.apply_move(&m); } states.push(g); }
    let x = |s: &[TicTacToe]| Tensor::stack(&s.iter().map(|s| s.as_tensor()).collect::<Vec<_>>(), 0).squeeze_dim(1);
    let all = tch::no_grad(|| net.forward_policy(&x(&states), false));
    for (i, s) in states.iter().enumerate() {
        let one = tch::no_grad(|| net.forward_policy(&x(&[*s, *s]), false)).get(0);
        assert!(near(&one, &all.get(i as i64)), "position {i} has another policy in a batch");
    }
}''')
seed('c28-value-of-a-lone-position', 'C28', [(N, """        let value = new_x
            .apply_t(&self.value_head, train);

        (policy, value)
    }

    // Similer""", """        // a lone position needs no batch normalisation in between
        let deep = if !train && xs.size()[0] == 1 { xs.apply_t(&self.init_block, train) } else { new_x };
        let value = deep
            .apply_t(&self.value_head, train);

        (policy, value)
    }

    // Similer""")],
 'a position evaluated alone, and again in a batch', 'the value of a position differs between single and batch evaluation', '''
fn main() {
    let net = wide();
    let g = TicTacToe::new();
    let t = g.as_tensor();
    let t = if t.size().len() == 3 { t.unsqueeze(0) } else { t };
    let two = Tensor::cat(&[t.shallow_clone(), t.shallow_clone()], 0);
    let (a, b) = tch::no_grad(|| (net.forward_t(&t, false).1.double_value(&[0, 0]), net.forward_t(&two, false).1.double_value(&[0, 0])));
    assert!((a - b).abs() < 1e-4, "{a} alone, {b} in a batch");
}''')

Z = 'src/alphazero/alphazero.rs'; V = 'src/versus.rs'
seed('c29-clock-seeded', 'C29', [(Z, """        let mut rng = thread_rng();
        let weights_iter""", """        // fresh for every choice
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(now.as_millis() as u64);
        let weights_iter""")],
 'several games or turns decided within one millisecond', 'games decided at the same moment all make the same choice', '''
fn main() {
    let w = Tensor::from_slice(&[1f32; 16]);
    let (mut same, n) = (0, 4000);
    let mut last = 99;
    for _ in 0..n { let k = AlphaZero::weighted_select_tensor_idx(&w); if k == last { same += 1 } last = k; }
    assert!(same < n / 8, "{same} of {n} choices repeat the one before");
}''')
seed('c29-cool-matches-only', 'C29', [(V, 'println!("\\nStarting play!");', 'println!("\\nStarting play!");\n    let temp = temp.min(1.0);')],
 'a match at a temperature above 1', 'model agents choose as if the temperature was 1', '''
fn main() {
    // the first moves of a match from the empty board, visits are known to be uneven
    let cfg = |t: f64| config::Config::builder().add_source(config::File::from_str(&format!("temperature = {t:?}\nlearn_iterations = 1\nnum_epochs = 1\ntraining_batch_size = 8\nself_play_iterations = 1\nnum_self_play_batches = 2\niterations = 40\nexploration_const = 2.0\nsimulate_round_limit = 40\ndirichlet_alpha = 0.3\ndirichlet_epsilon = 0.0\nwd = 0.0\nlr = 0.001\n"), config::FileFormat::Toml)).build().unwrap();
    let mcts = MctsConfig::from_config(&cfg(1.)).unwrap();
    let _ = graph(vec![v(-1, vec![(0, 1), (1, 2), (2, 3), (3, 4)], 5), won(1, 1), won(1, -1), won(1, -1), won(1, 1), v(1, vec![(0, 1)], 0)]);
    let mk = || { let net = ResNet::new::<G>(VarStore::new(*DEVICE));
        tch::no_grad(|| for (_, mut t) in net.vs.variables() { let s = t.size(); if s == [12, 32 * 4] || s == [1, 12] { let _ = t.zero_(); } else if s == [12] { t.copy_(&Tensor::from_slice(&[0f32, 2., 0., 1., 0., 0., 0., 0., 0., 0., 0., 0.])) } });
        net };
    // visits of the search itself
    let mut store = NodeStore::new();
    alpha_mcts::alpha_mcts_parallel(&mut store, &vec![G::at(0); 200], &mk(), &mcts, Some(indicatif::ProgressBar::hidden()));
    let roots = store.get_root_nodes();
    let n: Vec<f64> = floats(&die_e::mcts::utils::get_prob_tensor_parallel(&roots[..1], &store));
    let wins = |t: f64| -> usize { (0..6).map(|_| versus::play::<G>(Player::new(Agent::Model, Some(mk())), Player::new(Agent::Random, None), &mcts, t).wins_p1).sum() };
    // first agent's games: won by moves 1 and 2; the other two hundred are lost
    let chance = |t: f64| { let w: Vec<f64> = n.iter().map(|x| if *x > 0. { x.powf(1. / t) } else { 0. }).collect(); (w[1] + w[2]) / w.iter().sum::<f64>() };
    let (got, want) = (wins(8.) as f64 / 1200., chance(8.));
    assert!((chance(1.) - want).abs() > 0.15, "{n:?}");
    assert!((got - want).abs() < 0.09, "won {got}, expected {want}, without temperature {}", chance(1.));
}''')
seed('c29-first-sixty-four', 'C29', [(V, "match valid_moves.choose(&mut rand::thread_rng()) {", "match valid_moves.iter().take(64).collect_vec().choose(&mut rand::thread_rng()).copied() {")],
 'a random agent with more than 64 moves to choose from', 'moves late in the list are never chosen', '''
fn main() {
    let cfg = config::Config::builder().add_source(config::File::from_str(&c().toml(), config::FileFormat::Toml)).build().unwrap();
    let mcts = MctsConfig::from_config(&cfg).unwrap();
    let mut g = vec![V { p: -1, w: None, m: (0..200u8).map(|k| (k, if k < 100 { 1 } else { 2 })).collect(), pass: 3 }];
    g.extend([won(1, -1), won(1, 1), v(1, vec![(0, 2)], 0)]);
    graph(g);
    let r = versus::play::<G>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &mcts, 1.);
    assert!(r.wins_p1 > 40 && r.wins_p1 < 160, "{} of 200 games with 100 winning and 100 losing first moves", r.wins_p1);
}''')

M = 'src/main.rs'; P = 'src/alphazero/alpha_parallel.rs'
CLI = r'''
fn die_e(args: &[&str]) -> bool { std::process::Command::new(std::env::var("DIE_E").unwrap()).args(args).env("OMP_NUM_THREADS", "1").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap().success() }
fn all(d: &str) -> Vec<String> { let mut v = vec![]; let mut t = vec![std::path::PathBuf::from(d)]; while let Some(p) = t.pop() { for e in std::fs::read_dir(p).into_iter().flatten().flatten() { if e.path().is_dir() { t.push(e.path()) } else { v.push(e.path().display().to_string()) } } } v.sort(); v }
'''
seed('c30-run-of-the-minute', 'C30', [(P, "let run_id = nanoid!();", 'let run_id = format!("{}", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() / 600);')],
 'two learning runs begun soon after each other', 'the second run writes its data sets over those of the first', CLI + '''
fn main() {
    std::fs::write("conf", C { games: 1, iterations: 2, limit: 3, ..c() }.toml()).unwrap();
    let go = || assert!(die_e(&["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "learn"]));
    // (not across the change of a period)
    let s = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() % 600;
    if s > 540 { std::thread::sleep(std::time::Duration::from_secs(605 - s)) }
    go();
    let n = all("data").len();
    assert!(n > 0);
    std::fs::remove_dir_all("models").unwrap();
    go();
    assert_eq!(all("data").len(), 2 * n, "{:?}", all("data"));
}''')
seed('c30-borrowed-model', 'C30', [(M, """            let model_two = model_path_two
                .map(""", """            let model_two = model_path_two
                .or(shared_path)
                .map("""), (M, """            let model_one = model_path_one
                .map(""", """            // both agents may play with one model
            let shared_path = model_path_one.clone();
            let model_one = model_path_one
                .map(""")],
 'the second agent is a model and no path is given for it, but one for the first agent', 'the command plays with a model nobody named for that agent', CLI + '''
fn main() {
    std::fs::write("conf", C { iterations: 2, limit: 3, ..c() }.toml()).unwrap();
    std::fs::create_dir("out").unwrap();
    ResNet::new::<TicTacToe>(VarStore::new(*DEVICE)).vs.save("net.ot").unwrap();
    assert!(!die_e(&["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "play", "--agent-one", "random", "--model-path-one", "net.ot", "--agent-two", "model", "-o", "out"]));
    assert!(all("out").is_empty());
}''')
seed('c30-default-limit', 'C30', [('src/lib.rs', 'simulate_round_limit: conf.get_int("simulate_round_limit")? as usize,', 'simulate_round_limit: conf.get_int("simulate_round_limit").unwrap_or(400) as usize,')],
 'a configuration without simulate_round_limit', 'a missing setting is replaced by a number instead of being refused', CLI + '''
fn main() {
    let text = C { iterations: 2, limit: 3, ..c() }.toml();
    let without: String = text.lines().filter(|l| !l.starts_with("simulate_round_limit")).map(|l| format!("{l}\\n")).collect();
    std::fs::create_dir("out").unwrap();
    std::fs::write("conf", &text).unwrap();
    assert!(die_e(&["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "play", "--agent-one", "random", "--agent-two", "random", "-o", "out"]));
    std::fs::write("conf", &without).unwrap();
    let n = all("out").len();
    assert!(!die_e(&["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "play", "--agent-one", "random", "--agent-two", "random", "-o", "out"]));
    assert_eq!(all("out").len(), n);
}''')
if __name__ == '__main__':
    for i in sys.argv[1:] or S:
        S[i](); print(i)
        if 'DIE_E' in open(f'/verif/seeded/{i}/main.rs').read():
            p = f'/verif/seeded/{i}/demo.sh'; s = open(p).read()
            s = s.replace('cd "$w/run" &&', 'cargo build --offline --manifest-path "$repo/Cargo.toml" --target-dir "$repo/target" --bin die-e >/dev/null 2>&1; export DIE_E="$repo/target/debug/die-e"\ncd "$w/run" &&')
            open(p, 'w').write(s)
