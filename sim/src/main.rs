#![allow(static_mut_refs, non_snake_case)]
mod apps;
mod exec;
mod gen;
mod internals;
mod ops;
mod plan;
mod prng;
mod props;
mod refmodel;
mod runner;
mod sim;
mod sys;
mod tables;

pub fn die(m: &str) -> ! {
    eprintln!("h3sim: {m}");
    unsafe { sys::_exit(2) }
}
fn main() {
    sys::no_aslr();
    sys::one_arena();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: f64| opt(n).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    let seed = opt("--seed").and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") | Some("digest") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let prop = props::get(&id).unwrap_or_else(|| die("unknown property"));
            let known = opt("--known")
                .and_then(|f| std::fs::read_to_string(f).ok())
                .map(|t| {
                    t.lines()
                        .filter_map(|l| l.strip_prefix("known: property="))
                        .filter_map(|l| l.split_once(' '))
                        .map(|(a, b)| (a.to_string(), b.trim().to_string()))
                        .collect()
                })
                .unwrap_or_default();
            let cfg = runner::Cfg {
                tier: opt("--tier").unwrap_or("quick".into()),
                seed,
                secs: num("--secs", 20.0),
                runs: num("--runs", 1e15) as u64,
                workers: num("--workers", sys::cpus().len() as f64).max(1.0) as usize,
                config: opt("--config").unwrap_or_default(),
                out: opt("--out").unwrap_or("replays".into()),
                evidence: opt("--evidence").unwrap_or_default(),
                known,
                digest: a[1] == "digest",
            };
            runner::check(&*prop, &cfg)
        }
        Some("replay") => {
            let t = std::fs::read_to_string(a.get(2).map(|x| x.as_str()).unwrap_or("")).unwrap_or_else(|_| die("cannot read the replay file"));
            let p = plan::Plan::from_text(&t).unwrap_or_else(|e| die(&e));
            let prop = props::get(&p.prop).unwrap_or_else(|| die("unknown property"));
            runner::replay(&*prop, &p, seed)
        }
        _ => die("usage: h3sim check|digest PROPERTY [--tier T] [--seed N] [--secs S] [--runs N] | replay FILE"),
    };
    std::process::exit(code);
}
