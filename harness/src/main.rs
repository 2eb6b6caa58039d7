//! Command line of the harness; `check.py` is the driver.

use std::collections::HashMap;
use std::process::exit;

use vh::props;
use vh::refimpl as rf;
use vh::runner::{self, RunArgs};
use vh::src::{hexs, Src};

fn args() -> (String, HashMap<String, String>) {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let m = it
        .map(|a| match a.split_once('=') {
            Some((k, v)) => (k.to_string(), v.to_string()),
            None => (a, String::new()),
        })
        .collect();
    (cmd, m)
}

fn prop(m: &HashMap<String, String>) -> runner::Prop {
    match m.get("prop").and_then(|p| props::find(p)) {
        Some(p) => p,
        None => {
            eprintln!("no such property in this configuration");
            exit(2)
        }
    }
}

fn num(m: &HashMap<String, String>, k: &str, default: u64) -> u64 {
    m.get(k).map(|v| v.parse().expect("a number")).unwrap_or(default)
}

fn read_choices(m: &HashMap<String, String>) -> Vec<u64> {
    let s = match m.get("list") {
        Some(l) => l.clone(),
        None => std::fs::read_to_string(&m["choices"]).expect("choices"),
    };
    s.split(|c: char| !c.is_ascii_digit())
        .filter(|t| !t.is_empty())
        .map(|t| t.parse().expect("a choice"))
        .collect()
}

fn run_args(m: &HashMap<String, String>) -> RunArgs {
    RunArgs {
        seed: num(m, "seed", 1),
        config: m.get("config").cloned().unwrap_or_default(),
        shard: num(m, "shard", 0),
        shards: num(m, "shards", 1),
        cases: num(m, "cases", 100),
        thorough: m.get("tier").map_or(false, |t| t == "thorough"),
        sweep_max: num(m, "sweep_max", u32::MAX as u64) as usize,
        only: m.get("only").map(|v| v.parse().expect("a number")),
        prefixes: m.get("prefixes").map(|f| {
            std::fs::read_to_string(f)
                .expect("prefixes")
                .lines()
                .map(|l| l.split(',').map(|x| x.parse().expect("a choice")).collect())
                .collect()
        }),
    }
}

fn main() {
    runner::install_hook();
    let (cmd, m) = args();
    let c = num(&m, "cap", 0);
    if c > 0 {
        vh::src::CAP.store(c as usize, std::sync::atomic::Ordering::SeqCst);
    }
    if let Some(d) = m.get("dict") {
        let v = d.split(',').map(|x| x.parse().expect("a number")).collect();
        let _ = vh::src::NUMBERS.set(v);
    }
    if let Some(d) = m.get("texts") {
        let byte = |x: &str, i| u8::from_str_radix(&x[i..i + 2], 16).expect("hex");
        let v = d.split(',').map(|x| (0..x.len()).step_by(2).map(|i| byte(x, i)).collect()).collect();
        let _ = vh::src::TEXTS.set(v);
    }
    match cmd.as_str() {
        "selftest" => {
            if let Err(e) = rf::selftest() {
                eprintln!("selftest: {}", e);
                exit(2);
            }
        }
        "run" => {
            let p = prop(&m);
            if let Some(f) = m.get("mirror") {
                runner::map_mirror(f);
            }
            let a = run_args(&m);
            if a.only.is_some() {
                runner::TRACE_DRAWS.store(true, std::sync::atomic::Ordering::SeqCst);
            }
            match (m.get("tape"), m.get("record")) {
                (Some(f), _) => rf::tape_open(Some(f)),
                (None, Some(_)) => rf::tape_open(None),
                _ => {}
            }
            let rep = runner::run(&p, &a);
            if let Some(f) = m.get("record") {
                rf::tape_write(f);
            }
            rep.write(m.get("out").map_or("-", |s| s));
        }
        "replay" => {
            let p = prop(&m);
            let o = runner::run_case(p.case, Src::replay(read_choices(&m)), true);
            for n in &o.cx.notes {
                println!("  {}", n);
            }
            match o.verdict {
                Ok(()) => println!("the property holds on this case"),
                Err(e) => {
                    println!("violated: {}", e);
                    exit(1)
                }
            }
        }
        "mirror" => {
            let v: Vec<String> =
                runner::read_mirror(&m["file"]).iter().map(|c| c.to_string()).collect();
            println!("{}", v.join(","));
        }
        "merge" => {
            // how many different keys the given files hold together
            let mut all: Vec<u64> = Vec::new();
            for f in m["files"].split(',') {
                let d = std::fs::read(f).expect("keys");
                all.extend(d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            all.sort_unstable();
            all.dedup();
            println!("{}", all.len());
        }
        "first" => match props::engine::first_use(num(&m, "seed", 1)) {
            Ok(()) => println!("ok"),
            Err(e) => {
                println!("violated: {}", e);
                exit(1)
            }
        },
        #[cfg(not(miri))]
        "giant" => {
            let (len, piece) = (num(&m, "len", 0) as usize, num(&m, "piece", 0) as usize);
            if m["feed"] == "eq" {
                let (a, b) = props::hashing::giant_eq(len, piece);
                println!("{} {}", a, b);
            } else {
                let (d, n) = props::hashing::giant(&m["kind"], &m["feed"], len, piece);
                println!("{} {}", hexs(&d), n);
            }
        }
        "c07" => {
            // messages for the compile-time programs, with what is expected of them
            let seed = num(&m, "seed", 1);
            for i in 0..num(&m, "n", 50) {
                let mut s = Src::random(vec![], vh::src::mix(seed, 7000 + i));
                let n = match s.n(3) {
                    0 => s.n(140),
                    1 => (64 * s.n(5) + s.n(20)).saturating_sub(10),
                    2 => s.n(300),
                    _ => s.n(700),
                };
                let (v, _) = vh::src::gen_fill(&mut s, n);
                let (h, t) = props::hashing::c07_expected(&v);
                println!("{} {} {}", if v.is_empty() { "-".to_string() } else { hexs(&v) }, h, t);
            }
        }
        "consts" => print!("{}", rf::consts_text()),
        "sweep" => {
            // the sweep's prefixes, for a run that cannot afford to compute them
            let p = prop(&m);
            let a = run_args(&m);
            for v in runner::sweep_of(&p, &a) {
                let v: Vec<String> = v.iter().map(|c| c.to_string()).collect();
                println!("{}", v.join(","));
            }
        }
        "rule" => println!("{}", prop(&m).rule),
        "refs" => {
            // reference digests of messages given in hex, for comparison with another implementation
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let b: Vec<u8> = (0..l.len() / 2)
                    .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap())
                    .collect();
                let d: Vec<String> = rf::ALGS.iter().map(|a| hexs(&rf::hash(*a, &b))).collect();
                println!("{}", d.join(" "));
            }
        }
        _ => {
            eprintln!("unknown command {:?}", cmd);
            exit(2)
        }
    }
}
