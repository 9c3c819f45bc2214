#![allow(dead_code, unused_imports, unused_mut)]
mod alloc;
mod codec;

mod core;
mod fix;
mod logger;
#[macro_use]
mod mesh;
mod props;
mod rng;
mod sim;

use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.len() < 2 {
        eprintln!("usage: bmon PROPERTY --out FILE [--seed N] [--tier quick|thorough] [--only FAMILY[:INDEX]]");
        std::process::exit(2);
    }
    #[cfg(feature = "ser")]
    if a[1] == "deep" && a.len() == 4 {
        return props::c05::deep_child(a[2].parse().unwrap(), a[3].parse().unwrap());
    }
    let prop = a[1].clone();
    let only = get("--only").map(|s| match s.rsplit_once(':') {
        Some((f, i)) => (f.to_string(), Some(i.parse().unwrap())),
        None => (s, None),
    });
    let o = core::Opts {
        prop: prop.clone(),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        tcfg: props::config_name(),
        only,
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
        status: get("--status"),
        budget: Duration::from_secs(get("--budget").and_then(|s| s.parse().ok()).unwrap_or(100_000)),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        all: a.iter().any(|x| x == "--all"),
    };
    if let Some(gb) = get("--mem").and_then(|s| s.parse::<u64>().ok()) {
        unsafe {
            let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
    core::install_hook();
    logger::install();
    let fams = props::families(&prop);
    if fams.is_empty() {
        eprintln!("no scenarios for {} in this configuration", prop);
    }
    let out = get("--out");
    core::run(&o, &fams, &|t| {
        let j = core::to_json(t);
        match &out {
            Some(p) => std::fs::write(p, &j).unwrap(),
            None => {
                println!("ran {}/{} evals {} distinct {} wall {:.1}s", t.ran, t.planned, t.st.evals, t.st.distinct.len(), t.wall);
                println!("families {:?}", t.per_fam);
                println!("counters {:?}", t.st.counters);
                for s in t.st.samples.iter().take(12) {
                    println!("  sample {}", s);
                }
                for s in t.st.inconc.iter().take(12) {
                    println!("  INCONCLUSIVE {}", s);
                }
                let mut seen = std::collections::BTreeMap::new();
                for (f, i, s, m) in &t.viols {
                    let n = seen.entry(format!("{} {}", f, s)).or_insert(0);
                    *n += 1;
                    if *n <= 2 {
                        println!("  VIOL {}:{} {} {}", f, i, s, m);
                    }
                }
                for (k, n) in seen {
                    println!("  viol x{} {}", n, k);
                }
                for (f, i, s, m) in t.known.iter().take(10) {
                    println!("  KNOWN {}:{} {} {}", f, i, s, m);
                }
            }
        }
    });
}
