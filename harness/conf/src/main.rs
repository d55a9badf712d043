mod util;
mod lex;
mod derive;
mod prod;
mod family;
mod store;
mod turtle;
mod plane;
mod svg;
mod elements;
mod plant;
mod pipeline;
mod registry;
mod seqs;
mod parts;
mod settings;
mod errors;
mod tokens;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    util::start_watchdog();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize, d: usize| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    match s(0) {
        "lex-replay" => lex::replay(s(1), n(2, 2)),
        "lex-sweep" => lex::sweep(s(1)),
        "lex-record" => lex::record(s(1), n(2, 1000)),
        "lex-roundtrip" => lex::roundtrip(s(1), n(2, 2)),
        "match-replay" => derive::match_replay(s(1)),
        "derive-replay" => derive::derive_replay(s(1), s(2)),
        "derive-record" => derive::record(s(1), n(2, 500), s(3)),
        "store-replay" => store::replay(s(1), s(2)),
        "store-record" => store::record(s(1), n(2, 100), n(3, 0), s(4) == "hot"),
        "store-iterate" => store::iterate(n(1, 1000)),
        "family-descriptions" => family::descriptions(),
        "family-replay" => family::replay(s(1)),
        "family-record" => family::record(s(1), n(2, 100)),
        "family-registry" => family::registry(s(1), s(2)),
        "prod-replay" => prod::replay(s(1), n(2, 2)),
        "prod-record" => prod::record(s(1), n(2, 100)),
        "text-huge" => prod::huge(s(1), n(2, 1)),
        "text-replay" => prod::no_panic(s(1), n(2, 2)),
        "text-record" => prod::no_panic_record(s(1), n(2, 100)),
        "turtle-replay" => turtle::replay(s(1)),
        "turtle-record" => turtle::record(s(1), n(2, 100)),
        "plane-replay" => plane::replay(s(1)),
        "plane-record" => plane::record(s(1), n(2, 100)),
        "bounds-replay" => plane::bounds_replay(s(1)),
        "bounds-record" => plane::bounds_record(s(1), n(2, 100)),
        "svg-documents" => svg::documents(s(1), s(2), n(3, 1)),
        "elements-documents" => elements::documents(s(1), s(2)),
        "elements-record" => elements::record(s(1), n(2, 100)),
        "svg-record" => svg::record(s(1), n(2, 100)),
        "plant-replay" => plant::replay(s(1), n(2, 1)),
        "plant-record" => plant::record(s(1), n(2, 100)),
        "pipeline-replay" => pipeline::replay(s(1), s(2), n(3, 1)),
        "pipeline-record" => pipeline::record(s(1), n(2, 100)),
        "seqs-replay" => seqs::replay(s(1)),
        "seqs-record" => seqs::record(s(1), n(2, 100)),
        "parts-replay" => parts::replay(s(1)),
        "parts-record" => parts::record(s(1), n(2, 100)),
        "settings-replay" => settings::replay(s(1)),
        "settings-record" => settings::record(s(1), n(2, 100)),
        "errors-replay" => errors::replay(s(1)),
        "errors-record" => errors::record(s(1), n(2, 100)),
        "tokens-replay" => tokens::replay(s(1), n(2, 1)),
        "tokens-record" => tokens::record(s(1), n(2, 100)),
        "family-registry-record" => family::registry_record(s(1), n(2, 6), n(3, 400)),
        "registry-record" => registry::record(s(1), n(2, 4), n(3, 300)),
        "svg-reference" => svg::reference(),
        other => { eprintln!("unknown command {other}"); std::process::exit(2) }
    }
}
