//! Deterministic simulation of stream-download: see /verif/DESIGN.md.
#[cfg(feature = "opendal")]
mod dal;
mod gen_;
mod parent;
mod post;
mod process;
mod raw;
mod run;
mod scen;
mod source;
mod storage;
mod trace;
mod worker;
mod world;

use scen::Scenario;

fn load(path: &str) -> Scenario {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| fail(&format!("{path}: {e}")));
    let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_else(|e| fail(&format!("{path}: {e}")));
    let v = v.get("scenario").cloned().unwrap_or(v);
    serde_json::from_value(v).unwrap_or_else(|e| fail(&format!("{path}: {e}")))
}

fn fail(msg: &str) -> ! {
    eprintln!("simcheck: {msg}");
    std::process::exit(2);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map_or_else(|| fail("missing argument"), String::as_str);
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| fail("number expected"));
    match arg(1) {
        "check" => std::process::exit(parent::check(arg(2), arg(3))),
        "worker" => worker::worker(arg(2), num(3), num(4), num(5), num(6), arg(7)),
        // one scenario file, result as JSON
        "exec" => worker::exec(&load(arg(2)), args.iter().any(|a| a == "-v")),
        // the scenario with this number
        "execn" => {
            let p = gen_::prop(arg(2)).unwrap_or_else(|| fail("unknown property"));
            worker::exec(&gen_::scenario(p, num(3), num(4)), args.iter().any(|a| a == "-v"));
        }
        "gen" => {
            let p = gen_::prop(arg(2)).unwrap_or_else(|| fail("unknown property"));
            println!("{}", serde_json::to_string(&gen_::scenario(p, num(3), num(4))).expect("json"));
        }
        "replay" => std::process::exit(parent::replay(arg(2))),
        _ => fail("usage: simcheck check <property> quick|thorough | replay <file>"),
    }
}
