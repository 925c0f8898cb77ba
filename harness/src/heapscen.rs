//! Ledgers of every heap operation of the library during transfer and life cycle scenarios.
use crate::heap::{self, inside};
use crate::link;
use crate::peers::*;
use crate::rng::{mix, Rng};
use crate::{epscen, pool, scen};

const CAP: usize = 2500;

pub fn run(kind: &str, idx: u64, seed: u64) -> String {
    uflow::verif::net::reset();
    let cyc = kind == "cyc";
    heap::start(if cyc { 0 } else { CAP });
    let res = if let Some(k) = kind.strip_prefix("link.") {
        pool::guard(|| {
            let cfg = scen::scenario(k, idx, seed);
            let mut l = link::Link::new(&cfg.level, cfg.nonces, cfg.seed);
            l.run(&cfg);
        })
    } else if let Some(k) = kind.strip_prefix("ep.") {
        pool::guard(|| { epscen::run(k, idx, seed); })
    } else if cyc {
        pool::guard(|| cycles(idx, seed))
    } else {
        panic!("unknown heap scenario {}", kind)
    };
    if res.is_err() { heap::mark('P', 0); }
    uflow::verif::net::reset();
    let (ev, n) = heap::finish();
    format!("{{\"fam\":\"M\",\"job\":\"heap:{}:{}\",\"total\":{},\"ev\":[{}]}}", kind, idx, n.min(2_000_000_000), ev)
}

/// One server, a succession of like connections; the live memory after each has been forgotten
fn cycles(idx: u64, seed: u64) {
    let mut r = Rng::new(mix(mix(seed, idx), 0xc7c1e));
    let how = r.below(6);
    let n = r.range(16, 24);
    let mode = r.below(4) as usize;
    let count = r.range(1, 6);
    let len = *r.pick(&[20usize, 1448, 1449, 5000]);
    let lossy = r.chance(0.5);
    reset_env(seed ^ idx);
    let ep = EpCfg { timeout_ms: 5000, keepalive: false, psize: 20_000, alloc: 40_000, ..EpCfg::default() };
    let mut srv = inside(|| uflow::server::Server::bind(SERVER_ADDR, uflow::server::Config { endpoint_config: ep.build(), ..Default::default() })).unwrap();
    let sa = srv.address();
    let mut now = 0u64;
    // The application may hold on to its handles of connections which ended, and use them
    let hold = r.chance(0.35);
    let mut held = Vec::new();
    for k in 0..n {
        let mut c = Some(inside(|| uflow::client::Client::connect(SERVER_ADDR, uflow::client::Config { endpoint_config: ep.build() })).unwrap());
        let ca = c.as_ref().unwrap().local_address();
        let mut rr = Rng::new(seed ^ idx.wrapping_mul(77));
        let t0 = now;
        let mut staged: Vec<(std::net::SocketAddr, std::net::SocketAddr, Vec<u8>)> = Vec::new();
        let mut handle = None;
        while now < t0 + 45_000 {
            let el = now - t0;
            now += if el < 3000 { 10 } else { 250 };
            set_ms(now);
            for (f, t, d) in staged.drain(..) { uflow::verif::net::deliver(f, t, &d); }
            let evs: Vec<uflow::server::Event> = inside(|| srv.step().collect());
            drop(evs);
            if let Some(ref mut c) = c {
                let evs: Vec<uflow::client::Event> = inside(|| c.step().collect());
                drop(evs);
            }
            if el == 200 {
                handle = srv.client(&ca).cloned();
                for i in 0..count {
                    let d: Vec<u8> = vec![i as u8; len];
                    if let Some(ref mut c) = c { inside(|| { let b = d.clone().into_boxed_slice(); c.send(b, 3, MODES[mode]) }); }
                    if let Some(ref h) = handle { inside(|| { let b = d.clone().into_boxed_slice(); h.borrow_mut().send(b, 5, MODES[mode]) }); }
                }
            }
            if el == if lossy { 210 } else { 1500 } {
                match how {
                    0 => if let Some(ref mut c) = c { inside(|| c.disconnect()) },
                    1 => if let Some(ref h) = handle { inside(|| h.borrow_mut().disconnect()) },
                    2 => if let Some(ref mut c) = c { inside(|| c.disconnect_now()) },
                    3 => inside(|| srv.drop(&ca)),
                    4 => c = None,
                    _ => { if let Some(ref h) = handle { inside(|| h.borrow_mut().disconnect_now()) }; c = None; }
                }
                let h = handle.take();
                if hold { held.extend(h); }
            }
            if el >= 30_000 { c = None; }
            let cut = lossy && el > 220 && el < 1000;
            for d in uflow::verif::net::take_outbox() {
                if cut || (lossy && rr.chance(0.1)) { continue; }
                staged.push((d.from, d.to, d.data.into_vec()));
            }
        }
        staged.clear();
        drop(handle);
        drop(c);
        let _ = sa;
        for h in held.iter() { inside(|| { h.borrow_mut().send(vec![0u8; 1000].into_boxed_slice(), 3, MODES[mode]) }); }
        heap::mark(if hold { 'r' } else { 'q' }, k);
    }
    drop(held);
}
