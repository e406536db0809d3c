mod deck;
mod model;
mod num;
mod props;
mod refread;
mod run;
mod sim;
mod tape;

use std::path::{Path, PathBuf};

fn find(id: &str) -> &'static run::Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn main() {
    run::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let work = move || -> i32 {
        match a.get(1).map(|s| s.as_str()) {
            Some("run") => run::parent(find(&a[2]), &a[3], a[4].parse().unwrap_or(1), Path::new(&a[5])),
            Some("shard") => {
                run::shard(find(&a[2]), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), PathBuf::from(&a[7]));
                0
            }
            Some("case") => run::one_case(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), Path::new(&a[5])),
            Some("replay") => run::replay(props::ALL, Path::new(&a[2]), Path::new(&a[3])),
            Some("list") => {
                for p in props::ALL {
                    println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
                }
                0
            }
            _ => {
                eprintln!("usage: harness run|shard|case|replay|list ...");
                2
            }
        }
    };
    // plenty of stack, so that deep recursion in the code under test is its own doing
    let code = std::thread::Builder::new().stack_size(64 << 20).spawn(work).unwrap().join().unwrap_or(2);
    std::process::exit(code);
}
