mod alloc;
mod close;
mod conf;
mod exec;
mod fault;
mod flow;
mod handle;
mod hostile;
mod lab;
mod limits;
mod mem;
mod pair;
mod pipe;
mod plans;
mod press;
mod prng;
mod race;
mod runner;
mod vclock;
mod wire;
mod world;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let v: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String {
        v.iter().position(|a| a == k).and_then(|i| v.get(i + 1).cloned()).unwrap_or_else(|| d.to_string())
    };
    let code = match v.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = v[2].clone();
            let tier = opt("--tier", "quick");
            let a = runner::Args {
                seed: opt("--seed", "1").parse().unwrap_or(1),
                budget: opt("--budget", if tier == "thorough" { "600" } else { "400" }).parse().unwrap(),
                scale: opt("--scale", "1").parse().unwrap(),
                threads: opt("--threads", "8").parse().unwrap(),
                evidence: opt("--evidence", "1") == "1",
                brief: opt("--brief", ""),
                extra: opt("--extra", ""),
                first: opt("--first", "0") == "1",
                id: id.clone(),
                tier,
            };
            match plans::plan(&id) {
                Some(p) => runner::check(p, plans::FAMILIES, a),
                None => {
                    eprintln!("no such property {id}");
                    2
                }
            }
        }
        Some("replay") => runner::replay(&v[2], plans::FAMILIES),
        Some("one") => runner::one(&v[2], v[3].parse().unwrap(), opt("--tier", "quick") == "thorough", plans::FAMILIES),
        Some("bench") => runner::bench(&v[2], v[3].parse().unwrap(), plans::FAMILIES),
        Some("list") => {
            for f in plans::FAMILIES {
                println!("{}", f.0)
            }
            0
        }
        _ => {
            eprintln!("usage: yv check ID [--tier T] [--seed N] | yv replay FILE | yv one FAMILY SEED | yv list");
            2
        }
    };
    std::process::exit(code)
}
