//! Bounded stand-in and counterexample search for palmtree's properties.
//!
//! `palmcheck gen PROP SEED INDEX`            print history number INDEX
//! `palmcheck run PROP SEED FROM COUNT FILE`  run histories, writing the current index to FILE
//! `palmcheck replay PROP FILE`               run one written-out history
//!
//! Exit status of run/replay: 0 nothing found, 1 failure of PROP (line `FAIL ...`), 3 usage.
//! Hangs and aborts are seen by the caller (timeout, signal).
mod hist;
mod threads;
mod track;
mod world;

use hist::{History, Rng};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<&str> = args.iter().map(|s| &**s).collect();
    match a.get(1).copied() {
        Some("gen") => {
            let h = hist::generate(a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            print!("{}", h.to_text());
        }
        Some("run") => {
            use std::io::Write;
            let (prop, seed): (&str, u64) = (a[2], a[3].parse().unwrap());
            let (from, count): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            let mut f = std::fs::File::create(a[6]).unwrap();
            let deadline = a.get(7).map(|s| {
                std::time::Instant::now() + std::time::Duration::from_millis(s.parse().unwrap())
            });
            let mut stats = world::Stats::default();
            let mut done = 0;
            for i in from..from + count {
                use std::io::Seek;
                f.seek(std::io::SeekFrom::Start(0)).unwrap();
                write!(f, "{:020}", i).unwrap();
                let h = hist::generate(prop, seed, i);
                if let Err(msg) = world::run(prop, &h, &mut stats) {
                    println!("FAIL index={} {}", i, msg);
                    std::process::exit(1);
                }
                done += 1;
                if let Some(d) = deadline {
                    if std::time::Instant::now() > d {
                        break;
                    }
                }
            }
            println!(
                "OK histories={} ops={} checks={} distinct_states={} abandoned={} max_keys={}",
                done, stats.ops, stats.checks, stats.states.len(), stats.abandoned, stats.max_keys
            );
        }
        Some("replay") => {
            let text = std::fs::read_to_string(a[3]).unwrap();
            let h = History::from_text(&text);
            let mut stats = world::Stats::default();
            match world::run(a[2], &h, &mut stats) {
                Ok(()) => println!("OK"),
                Err(msg) => {
                    println!("FAIL {}", msg);
                    std::process::exit(1);
                }
            }
        }
        _ => std::process::exit(3),
    }
    let _ = Rng(0);
}
