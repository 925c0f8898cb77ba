//! Seeded scenarios for packet transfer traces.
use crate::link::*;
use crate::peers::*;
use crate::rng::{mix, Rng};

fn nonce(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0xffff_ffffu32.wrapping_sub(r.below(60) as u32),
        1 => 0x000f_ffffu32.wrapping_sub(r.below(200) as u32) | (r.u32() << 20),
        2 => 0xffff_ffffu32.wrapping_sub(r.below(4000) as u32),
        3 => 0x7fff_ffffu32.wrapping_sub(r.below(60) as u32),
        4 => r.below(3) as u32,
        _ => r.u32(),
    }
}

fn chans(r: &mut Rng) -> Vec<usize> {
    match r.below(5) {
        0 => vec![r.below(64) as usize],
        1 => vec![0, 63],
        2 => vec![15, 16, 31, 32, 33, 47, 48],
        3 => (0..64).collect(),
        _ => { let n = r.range(2, 5); (0..n).map(|_| r.below(64) as usize).collect() }
    }
}

fn modes(r: &mut Rng) -> [u64; 4] {
    match r.below(8) {
        0 => [0, 0, 0, 1],
        1 => [0, 1, 0, 1],
        2 => [1, 0, 0, 2],
        3 => [1, 3, 1, 1],
        4 => [0, 0, 1, 1],
        5 => [0, 2, 1, 0],
        _ => [1, 1, 1, 1],
    }
}

fn sizes(r: &mut Rng) -> Vec<(u64, usize, usize)> {
    match r.below(6) {
        0 => vec![(1, 0, 80)],
        1 => vec![(3, 1, 300), (1, 1440, 1460)],
        2 => vec![(4, 8, 200), (1, 1449, 6000)],
        3 => vec![(1, 0, 3), (1, 60, 66), (1, 250, 260), (1, 1446, 1450), (1, 2894, 2898)],
        4 => vec![(2, 10, 1448), (1, 3000, 14480)],
        _ => vec![(1, 8, 1500)],
    }
}

fn traffic(r: &mut Rng, maxp: usize) -> Traffic {
    let ch = chans(r);
    let zero = if r.chance(0.5) { Some(*r.pick(&ch)) } else { None };
    Traffic {
        burst_p: *r.pick(&[0.1, 0.3, 0.8]),
        burst: *r.pick(&[(1, 1), (1, 4), (2, 20)]),
        modes: modes(r),
        sizes: sizes(r),
        chans: ch,
        max_packets: maxp,
        max_backlog: *r.pick(&[3000usize, 20_000, 200_000]),
        zero_chan: zero,
    }
}

fn faulty(r: &mut Rng, base: u64) -> NetParams {
    let mut n = NetParams::fair(base);
    n.fifo = r.chance(0.3);
    n.dmax = base + *r.pick(&[0u64, 1, 10, 60, 400]);
    match r.below(6) {
        0 => n.loss = 0.0,
        1 => n.loss = r.f64() * 0.1,
        2 | 3 => n.loss = r.f64() * 0.5,
        4 => n.loss = 0.8,
        _ => { n.kill = 1 << r.below(3); }
    }
    n.dup = *r.pick(&[0.0, 0.0, 0.1, 0.5]);
    n.corrupt = *r.pick(&[0.0, 0.0, 0.05, 0.2]);
    n
}

pub fn scenario(kind: &str, idx: u64, seed: u64) -> LinkCfg {
    let s = mix(mix(seed, idx), kind.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let mut rr = Rng::new(s);
    let r = &mut rr;
    let base = *r.pick(&[0u64, 1, 5, 20, 50, 120]);
    let mut cfg = LinkCfg {
        seed: s,
        tag: "mix",
        level: Level::Ep { c: EpCfg::default(), s: EpCfg::default() },
        nonces: (nonce(r), nonce(r)),
        phases: Vec::new(),
        fair_delay: base,
        traffic: [traffic(r, 0), traffic(r, 0)],
        traffic_end: 0,
        pre_sends: 0,
        step: *r.pick(&[(1, 5), (5, 30), (10, 10), (20, 100), (0, 3)]),
        pause_p: 0.0,
        pause_max: 1,
        flush_p: *r.pick(&[0.0, 0.3, 1.0]),
        ideal: false,
        fair_cap: 14_400_000,
        probe_idle: 200_000,
        probes: false,
        bulk: 0,
        rate_probe: false,
        sub: 0,
        nag: false,
        trickle: (0, 0),
    };
    let lim = |r: &mut Rng| -> EpCfg {
        let mut c = EpCfg::default();
        c.keepalive = r.chance(0.7);
        c.keepalive_ms = *r.pick(&[100u64, 1000, 5000]);
        c
    };
    match kind {
        // Lossy networks of every sort
        "mix" => {
            cfg.tag = "mix";
            let n = *r.pick(&[30usize, 80, 160]);
            cfg.traffic = [traffic(r, n), if r.chance(0.5) { traffic(r, n / 2) } else { traffic(r, 0) }];
            let end = r.range(300, 8000);
            let mut t = 0;
            while t < end {
                t += r.range(100, 4000);
                let a = faulty(r, base);
                let b = faulty(r, base);
                cfg.phases.push((t, [a, b]));
            }
            cfg.traffic_end = t;
            if r.chance(0.2) { cfg.pause_p = 0.05; cfg.pause_max = 6000; }
            cfg.pre_sends = r.below(3);
            level(r, &mut cfg, &lim, true);
        }
        // Ideal network: no loss, no duplication, no reordering
        "ideal" => {
            cfg.tag = "ideal";
            cfg.ideal = true;
            let n = *r.pick(&[40usize, 100, 200]);
            cfg.traffic = [traffic(r, n), if r.chance(0.6) { traffic(r, n) } else { traffic(r, 0) }];
            let mut np = [NetParams::fair(base), NetParams::fair(base)];
            for x in np.iter_mut() { x.dmax = base + *r.pick(&[0u64, 0, 15, 100]); }
            let end = r.range(1000, 10_000);
            cfg.phases.push((end, np));
            cfg.traffic_end = end;
            cfg.pre_sends = r.below(4);
            if r.chance(0.2) { cfg.pause_p = 0.03; cfg.pause_max = 5000; }
            level(r, &mut cfg, &lim, false);
            if r.chance(0.5) { squeeze(r, &mut cfg); }
        }
        // Receive allocations close to the packet size
        "alloc" => {
            cfg.tag = "alloc";
            cfg.ideal = r.chance(0.5);
            let n = *r.pick(&[30usize, 60, 120]);
            cfg.traffic = [traffic(r, n), traffic(r, n)];
            for t in cfg.traffic.iter_mut() { t.burst = (3, 12); t.max_backlog = 200_000; t.sizes = vec![(2, 8, 300), (2, 1400, 1500), (1, 2000, 9000)]; }
            let mut np = [NetParams::fair(base), NetParams::fair(base)];
            if !cfg.ideal { for x in np.iter_mut() { *x = faulty(r, base); } }
            let end = r.range(2000, 8000);
            cfg.phases.push((end, np));
            cfg.traffic_end = end;
            level(r, &mut cfg, &lim, false);
            squeeze(r, &mut cfg);
        }
        // Whole windows of frames or packets lost, long blackouts, lasting RTT changes
        "loss" => {
            cfg.tag = "loss";
            cfg.probes = true;
            cfg.bulk = *r.pick(&[0usize, 30_000, 120_000]);
            let n = *r.pick(&[40usize, 120, 300]);
            cfg.traffic = [traffic(r, n), if r.chance(0.3) { traffic(r, n) } else { traffic(r, 0) }];
            let mut t = r.range(50, 3000);
            if r.chance(0.7) {
                let np = NetParams::fair(base);
                cfg.phases.push((t, [np.clone(), np]));
            }
            for _ in 0..r.range(1, 4) {
                t += *r.pick(&[200u64, 1000, 5000, 30_000, 120_000]);
                let mut a = NetParams::fair(base);
                let mut b = NetParams::fair(base);
                match r.below(7) {
                    0 => { a.loss = 1.0; b.loss = 1.0; }
                    1 => a.loss = 1.0,
                    2 => b.loss = 1.0,
                    3 => { b.kill = 4; a.kill = *r.pick(&[0u8, 4]); }
                    4 => { a.kill = 1; b.kill = *r.pick(&[0u8, 1]); }
                    5 => { a.kill = 2; b.kill = 2; }
                    _ => { let d = *r.pick(&[300u64, 1500, 4000]); a = NetParams::fair(d); b = NetParams::fair(d); cfg.fair_delay = *r.pick(&[base, d]); }
                }
                cfg.phases.push((t, [a, b]));
                if r.chance(0.5) {
                    t += r.range(100, 3000);
                    let x = faulty(r, base);
                    let y = faulty(r, base);
                    cfg.phases.push((t, [x, y]));
                }
            }
            cfg.traffic_end = t;
            cfg.step = *r.pick(&[(5, 30), (10, 10), (20, 60)]);
            level(r, &mut cfg, &lim, true);
        }
        // Packets of up to the default maximum size
        "big" => {
            cfg.tag = "big";
            cfg.ideal = r.chance(0.5);
            cfg.traffic = [traffic(r, 5), traffic(r, 0)];
            let t = &mut cfg.traffic[0];
            t.burst_p = 1.0;
            t.burst = (2, 5);
            t.max_backlog = 4_000_000;
            t.modes = if cfg.ideal { [0, 1, 1, 1] } else { [0, 0, 1, 3] };
            t.sizes = vec![(1, 999_000, 1_000_000), (1, 1_000_000, 1_000_000), (2, 90_000, 400_000), (1, 1448 * 64 - 1, 1448 * 65 + 1), (1, 8, 1448)];
            let mut np = [NetParams::fair(base), NetParams::fair(base)];
            if !cfg.ideal { for x in np.iter_mut() { x.loss = *r.pick(&[0.0, 0.02, 0.1]); x.dup = *r.pick(&[0.0, 0.2]); x.fifo = false; x.dmax = base + *r.pick(&[0u64, 10, 60]); } }
            cfg.phases.push((3000, np));
            cfg.traffic_end = 3000;
            cfg.step = (5, 15);
        }
        // Packets of many fragments, some of which are lost, or their acknowledgements
        "frag" => {
            cfg.tag = "frag";
            cfg.traffic = [traffic(r, 8), traffic(r, 0)];
            let t = &mut cfg.traffic[0];
            t.burst_p = 1.0;
            t.burst = (1, 3);
            t.max_backlog = 400_000;
            t.modes = *r.pick(&[[0, 0, 0, 1], [0, 0, 1, 3], [0, 1, 1, 2]]);
            t.sizes = vec![(2, 1448 * 33, 1448 * 90), (1, 1448 * 63, 1448 * 66), (1, 8, 2000)];
            let mut np = [NetParams::fair(base), NetParams::fair(base)];
            for x in np.iter_mut() {
                x.loss = *r.pick(&[0.0, 0.05, 0.2, 0.4]);
                x.dup = *r.pick(&[0.0, 0.2]);
                if r.chance(0.3) { x.fifo = false; x.dmax = base + *r.pick(&[5u64, 60]); }
            }
            let end = *r.pick(&[3000u64, 10_000]);
            cfg.phases.push((end, np));
            cfg.traffic_end = end;
            cfg.step = *r.pick(&[(5, 15), (5, 40)]);
            #[cfg(feature = "hc")]
            if r.chance(0.5) {
                let fw = *r.pick(&[16u32, 64, 4096]);
                let mk = |r: &mut Rng| hc::HcCfg { frame_win: fw, packet_win: 64, tx_rate: *r.pick(&[100_000u32, 2_000_000]), tx_alloc: 1_000_000, rx_alloc: 1_000_000, keepalive_ms: None };
                let (a, b) = (mk(r), mk(r));
                cfg.level = Level::Hc { a, b };
            }
        }
        // More packets than fit in a packet window, and more frames than in a frame window
        "many" => {
            cfg.tag = "many";
            cfg.ideal = r.chance(0.4);
            let n = *r.pick(&[4500usize, 6000]);
            cfg.traffic = [traffic(r, n), traffic(r, 0)];
            let t = &mut cfg.traffic[0];
            t.burst_p = 1.0;
            t.burst = (200, 1500);
            t.max_backlog = 4_000_000;
            t.sizes = vec![(1, 4, 12)];
            t.modes = modes(r);
            t.zero_chan = None;
            let mut np = [NetParams::fair(base), NetParams::fair(base)];
            if !cfg.ideal {
                for x in np.iter_mut() { x.loss = *r.pick(&[0.0, 0.05, 0.3]); x.dup = *r.pick(&[0.0, 0.2]); x.fifo = false; x.dmax = base + *r.pick(&[0u64, 10, 60]); }
                // Everything the window holds is sent, none of it acknowledged
                if r.chance(0.6) { np[1].loss = 1.0; cfg.phases.push((*r.pick(&[2000u64, 6000]), np.clone())); np[1].loss = 0.0; }
            }
            cfg.phases.push((8000, np));
            cfg.traffic_end = 8000;
            cfg.step = (5, 15);
            cfg.pre_sends = r.below(2);
        }
        // Saturating senders under rate ceilings
        "rate" => {
            cfg.tag = "rate";
            let n = *r.pick(&[60usize, 150, 300]);
            cfg.traffic = [traffic(r, n), if r.chance(0.5) { traffic(r, n) } else { traffic(r, 0) }];
            for t in cfg.traffic.iter_mut() { t.burst_p = 1.0; t.burst = (5, 30); t.max_backlog = 300_000; if r.chance(0.5) { t.sizes = vec![(1, 100, 6000)]; } }
            let mut t = 0;
            for _ in 0..r.range(1, 3) {
                t += r.range(500, 8000);
                let mut a = NetParams::fair(base);
                let mut b = NetParams::fair(base);
                if r.chance(0.4) { a.loss = r.f64() * 0.2; b.loss = r.f64() * 0.2; }
                if r.chance(0.3) { a.dup = 0.5; b.dup = 0.5; }
                if r.chance(0.2) { a.dmin += 200; a.dmax = a.dmin; }
                cfg.phases.push((t, [a, b]));
            }
            cfg.traffic_end = t;
            cfg.flush_p = *r.pick(&[0.0, 1.0]);
            if r.chance(0.3) { cfg.pause_p = 0.05; cfg.pause_max = 4000; }
            if r.chance(0.2) { cfg.sub = *r.pick(&[3u64, 20]); cfg.step = *r.pick(&[(1, 5), (10, 10)]); }
            cfg.nag = r.chance(0.3);
            let rates = [1472usize, 1500, 2000, 5000, 20_000, 100_000, 400_000];
            let mut c = lim(r);
            let mut s = lim(r);
            c.send_rate = *r.pick(&rates);
            s.send_rate = *r.pick(&rates);
            c.recv_rate = *r.pick(&rates);
            s.recv_rate = *r.pick(&rates);
            if r.chance(0.2) {
                // Much credit is due while the round trip is long; little, once it is short
                let (d, e) = (*r.pick(&[200u64, 500, 900]), *r.pick(&[1u64, 5, 20]));
                let t1 = r.range(5000, 10_000);
                let t2 = t1 + r.range(4000, 12_000);
                let f = |d: u64| [NetParams::fair(d), NetParams::fair(d)];
                cfg.phases = vec![(t1, f(d)), (t2, f(e)), (t2 + 2000, f(e))];
                cfg.trickle = (t1, t2);
                cfg.traffic_end = t2 + 2000;
                cfg.step = (10, 30);
                cfg.sub = 0;
                cfg.pause_p = 0.0;
                cfg.fair_delay = e;
                for t in cfg.traffic.iter_mut() { if t.max_packets > 0 { t.max_packets = 900; t.max_backlog = 40_000; t.modes = [0, 1, 0, 1]; t.sizes = vec![(1, 800, 1448)]; } }
                let fast = [20_000usize, 50_000, 100_000, 400_000];
                c.send_rate = *r.pick(&fast);
                s.send_rate = c.send_rate;
                c.recv_rate = *r.pick(&fast);
                s.recv_rate = c.recv_rate;
            }
            cfg.level = Level::Ep { c, s };
        }
        // Saturating senders over lossy links, with the rate state shown after every step
        "tfrc" => {
            cfg.tag = "tfrc";
            cfg.rate_probe = true;
            let base = *r.pick(&[2u64, 10, 30, 80, 200]);
            cfg.fair_delay = base;
            cfg.fair_cap = 60_000;
            cfg.traffic = [traffic(r, 3000), traffic(r, 0)];
            let t = &mut cfg.traffic[0];
            t.burst_p = *r.pick(&[0.05, 0.5, 1.0]);
            t.burst = (5, 20);
            t.max_backlog = 400_000;
            t.sizes = vec![(1, 200, 1448), (1, 1448, 1448)];
            t.modes = *r.pick(&[[0, 1, 0, 0], [0, 3, 0, 1], [0, 0, 1, 1]]);
            t.zero_chan = None;
            let mut end = 0;
            for _ in 0..r.range(1, 5) {
                end += *r.pick(&[500u64, 3000, 8000]);
                let mut np = [NetParams::fair(base), NetParams::fair(base)];
                np[0].loss = *r.pick(&[0.0, 0.01, 0.03, 0.1, 0.25]);
                np[1].loss = *r.pick(&[0.0, 0.0, 0.1, 0.4]);
                if r.chance(0.1) { np[1].loss = 1.0; }
                if r.chance(0.3) { for x in np.iter_mut() { x.fifo = false; x.dmax = base + *r.pick(&[2u64, 20, 100]); } }
                if r.chance(0.2) { let d = *r.pick(&[10u64, 300, 600]); for x in np.iter_mut() { x.dmin += d; x.dmax += d; } }
                np[1].dup = *r.pick(&[0.0, 0.3]);
                cfg.phases.push((end, np));
            }
            cfg.traffic_end = end;
            cfg.step = *r.pick(&[(1, 5), (5, 30), (10, 10), (20, 100)]);
            if r.chance(0.3) { cfg.pause_p = 0.02; cfg.pause_max = 8000; }
            #[cfg(feature = "hc")]
            {
                let mk = |r: &mut Rng| hc::HcCfg { frame_win: 4096, packet_win: 4096, tx_rate: *r.pick(&[1472u32, 30_000, 200_000, 2_000_000]), tx_alloc: 1 << 22, rx_alloc: 1 << 22, keepalive_ms: None };
                let (a, b) = (mk(r), mk(r));
                cfg.level = Level::Hc { a, b };
            }
        }
        _ => panic!("unknown scenario kind {}", kind),
    }
    cfg
}

fn level(r: &mut Rng, cfg: &mut LinkCfg, lim: &dyn Fn(&mut Rng) -> EpCfg, small: bool) {
    let _ = small;
    #[cfg(feature = "hc")]
    if small && r.chance(0.5) {
        let fw = *r.pick(&[2u32, 4, 8, 16, 32, 128]);
        let pw = *r.pick(&[2u32, 4, 8, 16, 64]);
        let alloc = *r.pick(&[20_000usize, 1_000_000]);
        let mk = |r: &mut Rng| hc::HcCfg {
            frame_win: fw, packet_win: pw, tx_rate: *r.pick(&[20_000u32, 100_000, 2_000_000]), tx_alloc: alloc, rx_alloc: alloc,
            keepalive_ms: *r.pick(&[None, Some(1000), Some(5000)]),
        };
        let (a, b) = (mk(r), mk(r));
        cfg.level = Level::Hc { a, b };
        return;
    }
    let mut c = lim(r);
    let mut s = lim(r);
    if r.chance(0.4) {
        let v = [3000usize, 20_000, 100_000, 2_000_000];
        c.send_rate = *r.pick(&v);
        s.send_rate = *r.pick(&v);
    }
    cfg.level = Level::Ep { c, s };
}

/// Small receive allocations and packet size limits (EP only)
fn squeeze(r: &mut Rng, cfg: &mut LinkCfg) {
    if let Level::Ep { ref mut c, ref mut s } = cfg.level {
        let v = [1448usize, 1449, 2000, 2896, 2897, 4344, 6000, 10_000];
        let a = *r.pick(&v);
        let b = *r.pick(&v);
        c.alloc = a.max(b);
        s.alloc = b.max(a);
        let m = a.min(b);
        c.psize = m;
        s.psize = m;
        if r.chance(0.3) { c.alloc += r.below(3000) as usize; s.alloc += r.below(3000) as usize; }
        if r.chance(0.35) {
            // Each side's limits are its own
            let wide = *r.pick(&[40_000usize, 150_000, 1_000_000]);
            if r.chance(0.5) { c.alloc = a; s.alloc = wide; } else { c.alloc = wide; s.alloc = a; }
            c.psize = s.alloc.min(20_000);
            s.psize = c.alloc.min(20_000);
            for t in cfg.traffic.iter_mut() { t.sizes.push((1, 8000, 20_000)); }
        }
        let ms = [c.psize, s.psize];
        for (t, m) in cfg.traffic.iter_mut().zip(ms) {
            for z in t.sizes.iter_mut() { z.2 = z.2.min(m); z.1 = z.1.min(z.2); }
        }
    }
}
