//! Deterministic simulation of zippity. See DESIGN.md.
mod big;
mod client;
mod core;
mod fsx;
mod history;
mod http;
mod mem;
mod props;
mod source;
mod spec;
mod sup;
mod world;
mod zip;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    sup::install_panic_hook();
    let arg = |i: usize| args.get(i).map_or("", String::as_str);
    let num = |i: usize, d: u64| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match arg(0) {
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if arg(2).is_empty() { tier } else { arg(2).to_string() };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
            sup::check(arg(1), if tier == "thorough" { "thorough" } else { "quick" }, seed, verif.as_ref())
        }
        "worker" => {
            sup::worker(&args[1..]);
            0
        }
        "replay" => sup::replay(arg(1)),
        "explore" => {
            sup::explore(arg(1), num(2, 1), num(3, 1000), num(4, 0));
            0
        }
        "show" => {
            sup::show(arg(1), num(2, 1), num(3, 0));
            0
        }
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: zsim check ID | replay FILE | explore ID [SEED COUNT FROM] | show ID SEED RUN");
            2
        }
    };
    std::process::exit(code);
}
