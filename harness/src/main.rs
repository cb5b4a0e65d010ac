mod big;
mod cov;
mod engine;
mod gen;
mod guide;
mod loose;
mod magic;
mod props;
mod refparse;
mod refresolve;
mod refscan;
mod render;
mod soup;
mod sut;
mod tree;

use std::path::PathBuf;

fn find(id: &str) -> Option<engine::Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("WSVERIF_ROOT").unwrap_or("/verif".into()))
}

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let need = |i: usize| -> engine::Prop {
        match find(&a[i]) {
            Some(p) => p,
            None => {
                eprintln!("no property {}", a[i]);
                std::process::exit(2)
            }
        }
    };
    let path = |s: &String| if s == "-" { None } else { Some(PathBuf::from(s)) };
    let code = match a.first().map(String::as_str) {
        Some("check") => {
            let tier = a.get(2).map_or("quick", String::as_str);
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            engine::check(need(1), tier, seed, &root())
        }
        Some("worker") => engine::worker(
            need(1),
            engine::WorkerArgs {
                tier: a[2].clone(),
                seed: a[3].parse().unwrap(),
                shard: a[4].parse().unwrap(),
                shards: a[5].parse().unwrap(),
                dir: PathBuf::from(&a[6]),
            },
        ),
        Some("exec") => {
            let choices = path(&a[5]).map(|p| {
                std::fs::read(p)
                    .expect("choices")
                    .chunks_exact(8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                    .collect()
            });
            engine::exec(
                need(1),
                &a[2],
                a[3].parse().unwrap(),
                a[4].parse().unwrap(),
                choices,
                path(&a[6]),
                a[7].parse().unwrap(),
            )
        }
        Some("known") => engine::known(need(1), a[2].parse().unwrap()),
        Some("replay") => engine::replay(find, &PathBuf::from(&a[1])),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: wsverif check ID TIER | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
