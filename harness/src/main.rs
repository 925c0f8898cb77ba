//! Drives the real uflow code and records traces for the TLA+ observers.
mod adv;
#[cfg(feature = "hc")]
mod codec;
mod content;
mod eps;
mod epscen;
mod heap;
mod heapscen;
mod link;
mod long;
mod peers;
mod pool;
#[cfg(feature = "hc")]
mod rate;
mod recv;
mod rng;
mod scen;
mod sched;
mod twin;
mod wire;
mod world;

use std::collections::HashMap;

/// kind:count,kind:count...
fn joblist(opt: &HashMap<String, String>, first: u64) -> Vec<(String, u64)> {
    let mut jobs = Vec::new();
    for k in opt["kinds"].split(',') {
        let (name, n) = k.split_once(':').unwrap();
        for j in 0..n.parse::<u64>().unwrap() { jobs.push((name.to_string(), first + j)); }
    }
    jobs
}

fn main() {
    std::panic::set_hook(Box::new(|i| pool::note_panic(i)));
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: u64| -> u64 { opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d) };
    let seed = get("seed", 1);
    let threads = get("threads", 8) as usize;
    let out = opt.get("out").cloned().unwrap_or_default();
    let first = get("first", 0);
    match args.get(1).map(|s| s.as_str()) {
        // uvh link --kinds mix:200,ideal:100
        Some("link") => {
            let jobs = joblist(&opt, first);
            let verbose = opt.contains_key("v");
            pool::run(jobs.len(), threads, &out, move |j| {
                let (kind, idx) = &jobs[j];
                let cfg = scen::scenario(kind, *idx, seed);
                let mut l = link::Link::new(&cfg.level, cfg.nonces, cfg.seed);
                let c2 = cfg.clone();
                let job = format!("link:{}:{}", kind, idx);
                let f = move |p: usize| format!("\"job\":\"{}\",{}", job, link::fields(&c2, p));
                let res = pool::guard(|| l.run(&cfg));
                match res {
                    Ok(s) => if verbose { eprintln!("{} {} {:?} pk {:?} fr {:?} ev {:?}", kind, idx, s, [l.half[0].pk.len(), l.half[1].pk.len()], [l.half[0].frames, l.half[1].frames], [l.half[0].ev.len(), l.half[1].ev.len()]) },
                    Err(m) => for h in l.half.iter_mut() { h.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); },
                }
                let lines = l.lines("L", &f);
                pool::forget_on_panic(l);
                lines.into_iter().filter(|s| !s.contains("\"pk\":[]")).collect()
            });
        }
        Some("ep") => {
            let jobs = joblist(&opt, first);
            pool::run(jobs.len(), threads, &out, move |j| {
                let (kind, idx) = &jobs[j];
                vec![epscen::run(kind, *idx, seed).1]
            });
        }
        Some("recv") => {
            let jobs = joblist(&opt, first);
            pool::run(jobs.len(), threads, &out, move |j| vec![recv::run(&jobs[j].0, jobs[j].1, seed)]);
        }
        // uvh asm --in FILE: one behaviour of Assembly.tla per line
        Some("asm") => {
            let jobs: Vec<String> = std::fs::read_to_string(&opt["in"]).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
            pool::run(jobs.len(), threads, &out, move |j| vec![recv::replay(&jobs[j], j as u64 + first, seed)]);
        }
        Some("long") => {
            let jobs = joblist(&opt, first);
            pool::run(jobs.len(), threads, &out, move |j| vec![long::run(&jobs[j].0, jobs[j].1, seed)]);
        }
        // uvh adv --in FILE: one behaviour of Adversary.tla per line
        Some("adv") => {
            let jobs: Vec<String> = std::fs::read_to_string(&opt["in"]).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
            pool::run(jobs.len(), threads, &out, move |j| vec![adv::run(&jobs[j], j as u64 + first, seed)]);
        }
        // uvh sched --in FILE: one behaviour of Transfer.tla per line
        Some("sched") => {
            let jobs: Vec<String> = std::fs::read_to_string(&opt["in"]).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
            pool::run(jobs.len(), threads, &out, move |j| sched::run(&jobs[j], j as u64 + first, seed));
        }
        // uvh eps --in FILE: one behaviour of Endpoint.tla per line
        Some("eps") => {
            let jobs: Vec<String> = std::fs::read_to_string(&opt["in"]).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
            pool::run(jobs.len(), threads, &out, move |j| vec![eps::run(&jobs[j], j as u64 + first, seed)]);
        }
        #[cfg(feature = "hc")]
        Some("rate") => {
            let jobs: Vec<String> = std::fs::read_to_string(&opt["in"]).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
            pool::run(jobs.len(), threads, &out, move |j| vec![rate::run(&jobs[j], j as u64 + first)]);
        }
        Some("twin") => {
            let jobs = joblist(&opt, first);
            pool::run(jobs.len(), threads, &out, move |j| vec![twin::run(&jobs[j].0, jobs[j].1, seed)]);
        }
        Some("heap") => {
            let jobs = joblist(&opt, first);
            pool::run(jobs.len(), threads, &out, move |j| vec![heapscen::run(&jobs[j].0, jobs[j].1, seed)]);
        }
        #[cfg(feature = "hc")]
        Some("codec") => {
            let jobs = joblist(&opt, first);
            pool::run(jobs.len(), threads, &out, move |j| vec![codec::run(&jobs[j].0, jobs[j].1, seed)]);
        }
        _ => {
            eprintln!("usage: uvh link ...");
            std::process::exit(2);
        }
    }
}
