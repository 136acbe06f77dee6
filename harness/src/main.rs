mod child;
mod corpus;
#[cfg(feature = "steps")]
mod cost;
mod engine;
mod gen;
mod model;
mod probe;
mod props;

use engine::*;
use std::path::PathBuf;

#[cfg(feature = "steps")]
#[global_allocator]
static ALLOC: cost::Counting = cost::Counting;

fn usage() -> ! {
    eprintln!("usage: mbusmon check ID | replay FILE | list");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let m = props::get(&id).unwrap_or_else(|| usage());
            std::process::exit(run_check(m.as_ref(), &|obs| props::parent(&id, obs)));
        }
        Some("worker") => {
            install_panic_hook();
            let m = props::get(&args[2]).unwrap_or_else(|| usage());
            let seed = args[3].parse().expect("seed");
            let tier = if args[4] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let shard = args[5].parse().expect("shard");
            let shards = args[6].parse().expect("shards");
            let start = args[7].parse().expect("start");
            let dir = PathBuf::from(&args[8]);
            let budget = args[9].parse().expect("budget");
            run_worker(m.as_ref(), seed, tier, shard, shards, start, &dir, budget);
        }
        Some("replay") => {
            install_panic_hook();
            let b = std::fs::read(args.get(2).unwrap_or_else(|| usage())).expect("read replay file");
            let r: Replay = serde_json::from_slice(&b).expect("replay json");
            let me = std::env::current_exe().expect("exe");
            let exe = variant_exe(&r.case.variant, &me);
            if exe != me {
                use std::os::unix::process::CommandExt;
                panic!("{}", std::process::Command::new(exe).args(&args[1..]).exec());
            }
            let m = props::get(&r.property).unwrap_or_else(|| usage());
            std::process::exit(run_replay(m.as_ref(), &r));
        }
        Some("fingerprint") => props::pure::child(),
        Some("serve") => props::features::serve(),
        Some("decode") => {
            let b = unhex(args.get(2).unwrap_or_else(|| usage())).expect("hex");
            let key = args.get(3).map(|k| unhex(k).expect("hex").try_into().expect("16 bytes"));
            props::show(&b, key);
        }
        // any format name, canonical or legacy, of one hex text
        Some("render") => {
            let key = args.get(4).map(|k| unhex(k).expect("hex").try_into().expect("16 bytes"));
            println!("{}", m_bus_parser::serialize_mbus_data(&args[2], &args[3], key.as_ref()));
        }
        Some("list") => {
            for i in props::IDS {
                println!("{i}");
            }
        }
        _ => usage(),
    }
}
