mod answers;
mod bg;
mod chances;
mod cli;
mod outcomes;
mod games;
mod learn;
mod matches;
mod nets;
mod posgen;
mod search;
mod selfplay;
mod sessions;
mod shown;
mod starts;
mod steps;
mod store;
mod ttt;
mod uses;
mod util;

fn main() {
    let a = util::Args::parse();
    util::quiet_panics();
    tch::set_num_threads(1);
    match a.cmd.as_str() {
        "answers" => answers::answers(&a),
        "chances" => chances::chances(&a),
        "bgpos" => bg::positions(&a),
        "bggames" => bg::games(&a),
        "bgdice" => bg::dice(&a),
        "ttt" => ttt::all(&a),
        "selfplay" => selfplay::selfplay(&a),
        "search" => search::search(&a),
        "matches" => matches::matches(&a),
        "learn" => learn::learn(&a),
        "best" => learn::best(&a),
        "dataset" => store::dataset(&a),
        "models" => store::models(&a),
        "trainpass" => store::trainpass(&a),
        "savedgames" => store::savedgames(&a),
        "clitrain" => cli::train(&a),
        "sessions" => sessions::sessions(&a),
        "outcomes" => outcomes::outcomes(&a),
        "cliplay" => cli::play(&a),
        "noise" => search::noise(&a),
        "playouts" => search::playouts(&a),
        "starts" => starts::starts(&a),
        "shown" => shown::shown(&a),
        "usednoise" => uses::noise(&a),
        "uses" => uses::uses(&a),
        "steps" => steps::steps(&a),
        c => panic!("unknown command {c}"),
    }
}
