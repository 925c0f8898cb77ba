//! Two runs of the same transfer, the second with additional acknowledgement frames which must be
//! without effect (wrong nonces, unknown frames, copies). Records what both runs showed, step by
//! step; the Twin observer decides which injections may have no effect, and compares.
use crate::peers::*;
use crate::pool;
use crate::rng::{mix, Rng};
use crate::wire::{self, Frame, Group};
use std::collections::BTreeMap;
use std::fmt::Write;

struct Cfg {
    seed: u64,
    hc: bool,
    nonces: (u32, u32),
    rate: usize,
    rate2: usize,
    steps: usize,
    dt: (u64, u64),
    delay: (u64, u64),
    loss: [f64; 2],
    /// (from, to) step numbers during which everything or all acknowledgements are lost
    hole: (usize, usize, bool),
    modes: Vec<usize>,
    sizes: (u64, u64),
    send_p: f64,
    both: bool,
    inj_p: f64,
    inj_n: u64,
    /// peer under attack
    side: usize,
    win: u32,
    pauses: bool,
}

#[derive(Default, Clone, PartialEq, Debug)]
struct Obs { h: [u32; 2], n: [usize; 2], s: [usize; 2], r: [i64; 2], x: [i64; 2] }

fn hash(h: u32, d: &[u8]) -> u32 { let mut x = h; for b in d { x = (x ^ *b as u32).wrapping_mul(16777619) ^ (x >> 15); } x }

struct Seen { end_f: u32, end_p: u32, nonce: Vec<bool>, acks: Vec<Frame>, fb: u32, pb: u32 }

fn srel(a: u32, b: u32) -> i64 { (a.wrapping_sub(b) as i32) as i64 }
fn prel(a: u32, b: u32) -> i64 { let x = a.wrapping_sub(b) & 0xfffff; if x < 0x80000 { x as i64 } else { x as i64 - 0x100000 } }

fn ack_event(name: &str, f: &Frame, fbase: u32, pbase: u32, t: u64) -> String {
    if let Frame::Acks { fb, pb, groups } = f {
        let mut g = String::new();
        for x in groups {
            if !g.is_empty() { g.push(','); }
            let offs: Vec<String> = (0..32).filter(|k| x.bits >> k & 1 == 1).map(|k| k.to_string()).collect();
            write!(g, "[{},[{}],{}]", srel(x.base, fbase).clamp(-2_000_000_000, 2_000_000_000), offs.join(","), x.nonce as u8).unwrap();
        }
        format!("{{\"e\":\"{}\",\"t\":{},\"fb\":{},\"pb\":{},\"g\":[{}]}}", name, t, srel(*fb, fbase).clamp(-2_000_000_000, 2_000_000_000), prel(*pb, pbase), g)
    } else { unreachable!() }
}

/// An acknowledgement frame without effect
fn forge(s: &Seen, base: u32, r: &mut Rng) -> Vec<Frame> {
    let n = s.nonce.len() as u32;
    let parity = |g: u32, bits: u32| -> bool { (0..32).filter(|k| bits >> k & 1 == 1).fold(false, |a, k| a ^ s.nonce[(g.wrapping_add(k)) as usize]) };
    // Which of the frames sent are of interest: recent ones
    let recent = |r: &mut Rng| -> u32 { if n == 0 { 0 } else { let back = *r.pick(&[1u64, 4, 40, 200]); n - 1 - r.below(back.min(n as u64)) as u32 } };
    let bits_in = |r: &mut Rng, g: u32| -> u32 {
        let room = (n - g).min(32);
        let m = if room == 32 { u32::MAX } else { (1 << room) - 1 };
        let b = match r.below(4) { 0 => m, 1 => 1, _ => r.u32() } & m;
        if b == 0 { 1 } else { b }
    };
    let mut out = Vec::new();
    let mut groups = Vec::new();
    let mut fb = s.fb;
    let mut pb = s.pb;
    for _ in 0..r.range(1, 4) {
        match r.below(9) {
            0 | 1 | 2 if n > 0 => {
                let g = recent(r);
                let b = bits_in(r, g);
                groups.push(Group { base: base.wrapping_add(g), bits: b, nonce: !parity(g, b) });
            }
            3 => {
                // Frames not sent yet
                let g = n + *r.pick(&[0u32, 1, 7, 31, 32, 4095, 4096, 0x7fff_0000]);
                groups.push(Group { base: base.wrapping_add(g), bits: r.u32() | 1, nonce: r.chance(0.5) });
            }
            4 if n > 0 => {
                // Partly sent, and with the parity of that part
                let g = recent(r);
                let room = (n - g).min(31);
                if room < 31 {
                    let lo = bits_in(r, g);
                    let lo = if n - g >= 32 { lo & 0x7fff_ffff } else { lo };
                    let hi = 1u32 << (room + r.below(32 - room as u64) as u32);
                    groups.push(Group { base: base.wrapping_add(g), bits: lo | hi, nonce: if r.chance(0.8) { parity(g, lo & if room == 32 { u32::MAX } else { (1 << room) - 1 }) } else { r.chance(0.5) } });
                }
            }
            5 => {
                // Frames before the first
                let k = 1 + r.below(40) as u32;
                groups.push(Group { base: base.wrapping_sub(k), bits: r.u32() | 1, nonce: r.chance(0.5) });
            }
            6 => { fb = match r.below(5) { 0 => base.wrapping_add(n + 1 + r.below(5) as u32), 1 => base.wrapping_add(n + 5000), 2 => base.wrapping_sub(1), 3 => s.fb.wrapping_sub(1 + r.below(40) as u32), _ => base.wrapping_add(0x7fff_fff0) }; }
            7 => { pb = match r.below(4) { 0 => s.end_p.wrapping_add(1 + r.below(3) as u32), 1 => s.end_p.wrapping_add(0x3ffff), 2 => s.pb.wrapping_sub(1 + r.below(5) as u32), _ => s.pb.wrapping_sub(4096) } & 0xfffff; }
            _ if !s.acks.is_empty() => {
                let w = (*r.pick(&[1u64, 3, 1000])).min(s.acks.len() as u64);
                let k = s.acks.len() - 1 - r.below(w) as usize;
                if r.chance(0.6) { out.push(s.acks[k].clone()); } else if let Frame::Acks { groups: ref gs, .. } = s.acks[k] {
                    for g in gs.iter().take(10) { groups.push(g.clone()); }
                }
            }
            _ => (),
        }
    }
    groups.truncate(150);
    out.push(Frame::Acks { fb, pb, groups });
    out
}

#[allow(clippy::too_many_arguments)]
fn emitted(c: &Cfg, p: usize, k: usize, now: u64, frames: Vec<Vec<u8>>, o: &mut Obs, seen: &mut Seen, ev: &mut Vec<String>, fate: &mut [Rng; 2], net: &mut [BTreeMap<(u64, u64), Vec<u8>>; 2], serial: &mut u64) {
    let base = if c.side == 0 { c.nonces.0 } else { c.nonces.1 };
    o.n[p] += frames.len();
    for d in frames {
        o.h[p] = hash(o.h[p], &d);
        if p == c.side {
            if let Some(Frame::Data { seq, nonce, dgs }) = wire::decode(&d) {
                if seq == seen.end_f { seen.nonce.push(nonce); seen.end_f = seq.wrapping_add(1); }
                for g in &dgs { let e = (g.pid + 1) & 0xfffff; if prel(e, seen.end_p) > 0 { seen.end_p = e; } }
                ev.push(format!("{{\"e\":\"D\",\"f\":{},\"n\":{},\"p\":{}}}", srel(seq, base), nonce as u8, prel(seen.end_p, base & 0xfffff)));
            }
        }
        let r = &mut fate[p];
        let lost = r.chance(c.loss[p]) | (k >= c.hole.0 && k < c.hole.1 && (c.hole.2 || p == 1));
        let due = now + r.range(c.delay.0, c.delay.1);
        *serial += 1;
        if !lost { net[p].insert((due, *serial), d); }
    }
}

/// Returns what was observed at every step, and the events of the peer under attack between steps
fn play(c: &Cfg, inject: bool) -> (Vec<Obs>, Vec<Vec<String>>, u32) {
    reset_env(c.seed);
    let mut peers: [Box<dyn Peer>; 2];
    #[cfg(feature = "hc")]
    let hcs = c.hc;
    #[cfg(not(feature = "hc"))]
    let hcs = false;
    let mut net: [BTreeMap<(u64, u64), Vec<u8>>; 2] = Default::default();
    let mut now = 0u64;
    if hcs {
        #[cfg(feature = "hc")]
        {
            let h = hc::HcCfg { frame_win: c.win, packet_win: c.win, tx_rate: c.rate as u32, tx_alloc: 1 << 20, rx_alloc: 1 << 20, keepalive_ms: None };
            let h2 = hc::HcCfg { tx_rate: c.rate2 as u32, ..h.clone() };
            peers = [Box::new(hc::HcPeer::new(&h, c.nonces.0, c.nonces.1)), Box::new(hc::HcPeer::new(&h2, c.nonces.1, c.nonces.0))];
        }
        #[cfg(not(feature = "hc"))]
        unreachable!();
    } else {
        let e = EpCfg { send_rate: c.rate, keepalive: false, ..EpCfg::default() };
        let e2 = EpCfg { send_rate: c.rate2, keepalive: false, ..EpCfg::default() };
        let (cl, sv) = ep_pair(&e, &e2, c.nonces.0, c.nonces.1);
        peers = [Box::new(cl), Box::new(sv)];
        for _ in 0..10 {
            now += 1;
            set_ms(now);
            for p in 0..2 {
                peers[p].step();
            }
            for d in uflow::verif::net::take_outbox() { uflow::verif::net::deliver(d.from, d.to, &d.data); }
        }
        assert!(peers[0].phase() == Phase::Active && peers[1].phase() == Phase::Active, "HARNESS: no connection");
    }
    let bases = [c.nonces.0, c.nonces.1];
    let mut app = Rng::new(mix(c.seed, 1));
    let mut fate = [Rng::new(mix(c.seed, 2)), Rng::new(mix(c.seed, 3))];
    let mut inj = Rng::new(mix(c.seed, 4));
    let mut seen = Seen { end_f: bases[c.side], end_p: bases[c.side] & 0xfffff, nonce: Vec::new(), acks: Vec::new(), fb: bases[c.side], pb: bases[c.side] & 0xfffff };
    let mut obs = Vec::new();
    let mut evs = Vec::new();
    let mut serial = 0u64;
    let mut injected = 0;
    let fbase = bases[c.side];
    let pbase = bases[c.side] & 0xfffff;
    for k in 0..c.steps {
        let mut dt = app.range(c.dt.0, c.dt.1);
        if c.pauses && app.chance(0.02) { dt += app.range(500, 6000); }
        now += dt;
        set_ms(now);
        let mut ev = Vec::new();
        let mut o = Obs::default();
        for p in 0..2 {
            if (p == 0 || c.both) && app.chance(c.send_p) {
                for _ in 0..app.range(1, 6) {
                    let n = app.range(c.sizes.0, c.sizes.1) as usize;
                    let m = *app.pick(&c.modes);
                    let ch = app.below(3) as usize;
                    let mut d = vec![0u8; n];
                    for b in d.iter_mut().take(16) { *b = app.u32() as u8; }
                    peers[p].send(d, ch, MODES[m]);
                }
            }
            let due: Vec<Vec<u8>> = { let keys: Vec<(u64, u64)> = net[1 - p].range(..=(now, u64::MAX)).map(|(k, _)| *k).collect(); keys.iter().map(|k| net[1 - p].remove(k).unwrap()).collect() };
            // step() sends before it consumes; have it sent before deciding what is unknown
            peers[p].flush();
            let frames = peers[p].take_sent();
            emitted(c, p, k, now, frames, &mut o, &mut seen, &mut ev, &mut fate, &mut net, &mut serial);
            let here = inject && p == c.side && k > 3;
            let extra = |peers: &mut [Box<dyn Peer>; 2], seen: &Seen, inj: &mut Rng, ev: &mut Vec<String>, injected: &mut u32| {
                for f in forge(seen, fbase, inj) {
                    let d = wire::encode(&f);
                    if d.len() <= 1472 { ev.push(ack_event("I", &f, fbase, pbase, now)); peers[p].deliver(&d); *injected += 1; }
                }
            };
            if here && inj.chance(c.inj_p) { for _ in 0..inj.range(1, c.inj_n) { extra(&mut peers, &seen, &mut inj, &mut ev, &mut injected); } }
            for d in due {
                let f = wire::decode(&d);
                let mut deliver = d;
                let mut after = false;
                if p == c.side {
                    if let Some(f @ Frame::Acks { .. }) = f {
                        if here && inj.chance(c.inj_p) {
                            // Forged groups within a genuine frame
                            if let Frame::Acks { fb, pb, ref groups } = f {
                                let mut gs = groups.clone();
                                for y in forge(&seen, fbase, &mut inj) {
                                    if let Frame::Acks { groups: yg, .. } = y { for g in yg { if gs.len() < 155 { let at = inj.below(gs.len() as u64 + 1) as usize; gs.insert(at, g); } } }
                                }
                                let y = Frame::Acks { fb, pb, groups: gs };
                                ev.push(ack_event("K", &f, fbase, pbase, now));
                                // What was added
                                ev.push(ack_event("J", &y, fbase, pbase, now));
                                deliver = wire::encode(&y);
                                injected += 1;
                            }
                        } else { ev.push(ack_event("K", &f, fbase, pbase, now)); }
                        if let Frame::Acks { fb, pb, .. } = f {
                            if srel(fb, seen.fb) > 0 { seen.fb = fb; }
                            if prel(pb, seen.pb) > 0 { seen.pb = pb; }
                        }
                        seen.acks.push(f);
                        after = here && inj.chance(c.inj_p);
                    }
                }
                peers[p].deliver(&deliver);
                if after { extra(&mut peers, &seen, &mut inj, &mut ev, &mut injected); }
            }
        }
        let mut sent: [Vec<Vec<u8>>; 2] = Default::default();
        for p in 0..2 {
            peers[p].step();
            if app.chance(0.7) { peers[p].flush(); }
            sent[p] = peers[p].take_sent();
        }
        for p in 0..2 {
            let frames = std::mem::take(&mut sent[p]);
            emitted(c, p, k, now, frames, &mut o, &mut seen, &mut ev, &mut fate, &mut net, &mut serial);
            o.s[p] = peers[p].sbs();
            o.r[p] = peers[p].rtt().map_or(-1, |x| (x * 1e5).min(2e9) as i64);
            o.x[p] = peers[p].rate().map_or(-1, |x| x.min(2e9) as i64);
            o.h[p] &= 0x7fffffff;
        }
        obs.push(o);
        evs.push(ev);
    }
    (obs, evs, injected)
}

pub fn run(kind: &str, idx: u64, seed: u64) -> String {
    let s = mix(mix(seed, idx), kind.bytes().fold(53u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let mut r = Rng::new(s);
    let hc = kind == "hc";
    let quiet = r.chance(0.3);
    let d0 = *r.pick(&[1u64, 10, 40, 150]);
    let steps = *r.pick(&[80usize, 150, 300]);
    let h0 = r.below(steps as u64) as usize;
    let c = Cfg {
        seed: s,
        hc,
        nonces: (crate::recv::nonce(&mut r), crate::recv::nonce(&mut r)),
        rate: *r.pick(&[3000usize, 20_000, 200_000, 2_000_000]),
        rate2: *r.pick(&[3000usize, 50_000, 2_000_000]),
        steps,
        dt: *r.pick(&[(1, 1), (1, 10), (5, 30), (50, 200)]),
        delay: (d0, d0 + *r.pick(&[0u64, 5, 60])),
        loss: if quiet { [0.0, 0.0] } else { [*r.pick(&[0.0, 0.02, 0.2]), *r.pick(&[0.0, 0.05, 0.3])] },
        hole: if r.chance(0.4) { (h0, h0 + r.range(2, 40) as usize, r.chance(0.5)) } else { (0, 0, false) },
        modes: r.pick(&[vec![3], vec![1], vec![0, 1, 2, 3], vec![2, 3]]).clone(),
        sizes: *r.pick(&[(8u64, 60u64), (8, 1400), (1, 4000), (1000, 10_000)]),
        send_p: *r.pick(&[0.1, 0.5, 1.0]),
        both: r.chance(0.3),
        inj_p: *r.pick(&[0.05, 0.3, 0.8]),
        inj_n: *r.pick(&[1u64, 4]),
        side: 0,
        win: *r.pick(&[32u32, 128, 4096, 4096]),
        pauses: r.chance(0.3),
    };
    let mut c = c;
    if c.both && r.chance(0.5) { c.side = 1; }
    let mut ev: Vec<String> = Vec::new();
    let res = pool::guard(|| {
        let (oa, _, _) = play(&c, false);
        let (ob, eb, inj) = play(&c, true);
        for (k, o) in oa.iter().enumerate() {
            ev.extend(eb[k].iter().cloned());
            let f = |o: &Obs| format!("[{},{},{},{},{},{},{},{},{},{}]", o.h[0], o.n[0], o.s[0], o.r[0], o.x[0], o.h[1], o.n[1], o.s[1], o.r[1], o.x[1]);
            ev.push(format!("{{\"e\":\"X\",\"a\":{},\"b\":{}}}", f(o), f(&ob[k])));
            if *o != ob[k] { break; }
        }
        ev.push(format!("{{\"e\":\"E\",\"n\":{}}}", inj));
    });
    if let Err(m) = res { ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); }
    uflow::verif::net::reset();
    format!("{{\"fam\":\"T\",\"job\":\"twin:{}:{}\",\"side\":{},\"ev\":[{}]}}", kind, idx, c.side, ev.join(","))
}
