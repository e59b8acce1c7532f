mod cfi;
mod dwarf;
mod elf;
mod macho;
mod pe;
mod elfmod;
mod engine;
mod model;
mod fmt;
mod names;
mod pdb;
mod props;
mod run;
mod sym;
mod w;

use std::path::PathBuf;
use std::time::Duration;

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let bin = PathBuf::from(std::env::var("VP_BIN").expect("VP_BIN"));
    let verif = PathBuf::from(std::env::var("VP_VERIF").unwrap_or("/verif".into()));
    let tmp = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let scratch = tmp.join(format!("vp.{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut o = engine::Options {
        verif,
        bin,
        scratch: scratch.clone(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        cases: std::env::var("VP_CASES").ok().and_then(|s| s.parse().ok()),
        wall: Duration::from_secs(600),
    };
    engine::load_known(&o.verif);
    let all = props::all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = &args[1];
            for a in &args[2..] {
                match a.as_str() {
                    "quick" => o.thorough = false,
                    "thorough" => o.thorough = true,
                    _ => panic!("unknown argument {a}"),
                }
            }
            o.wall = Duration::from_secs(if o.thorough { 3600 } else { 420 });
            match all.iter().find(|p| p.id == id) {
                Some(p) => engine::check(p, &o),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("replay file");
            let id = v["property"].as_str().unwrap();
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            engine::replay(all.iter().find(|p| p.id == id).expect("property"), &o, tape)
        }
        _ => {
            eprintln!("usage: vp check ID [quick|thorough] | replay FILE");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
