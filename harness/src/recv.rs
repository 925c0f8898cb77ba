//! A receiving endpoint under a scripted sender: fragments in any order, repeated, interleaved,
//! contradicted; packets exceeding the receive allocation; floods of hostile frames. Records
//! traces for the receiver observer.
use crate::content::Registry;
use crate::heap::{self, inside};
use crate::peers::*;
use crate::pool;
use crate::rng::{mix, Rng};
use crate::wire::{self, Dg, Frame, FRAG};
use std::fmt::Write;
use std::net::SocketAddr;
use uflow::verif::net;

/// A connected endpoint whose peer is the harness
pub struct Target {
    pub peer: Box<dyn Peer>,
    /// base of ids sent by the harness, and by the target
    pub base: u32,
    pub tbase: u32,
    pub what: &'static str,
}

pub const RAW: &str = "10.9.9.9:9999";

pub fn server_target(ep: &EpCfg, base: u32, tbase: u32) -> Target {
    let srv = inside(|| uflow::server::Server::bind(SERVER_ADDR, uflow::server::Config { endpoint_config: ep.build(), ..Default::default() })).unwrap();
    let addr = srv.address();
    let client: SocketAddr = RAW.parse().unwrap();
    let mut p = ServerPeer { s: srv, addr, client, closed: false, other: Vec::new() };
    uflow::verif::rand::force_u32(tbase);
    p.deliver(&wire::encode(&Frame::Syn { version: 3, nonce: base, rate: 1 << 30, psize: 1, alloc: 1 << 30 }));
    p.step();
    p.take_sent();
    p.deliver(&wire::encode(&Frame::Ack { nonce_ack: tbase }));
    let o = p.step();
    assert!(o.contains(&Out::Connect), "HARNESS: no connection");
    p.take_sent();
    Target { peer: Box::new(p), base, tbase, what: "S" }
}

pub fn client_target(ep: &EpCfg, base: u32, tbase: u32) -> Target {
    uflow::verif::rand::force_u32(tbase);
    let c = inside(|| uflow::client::Client::connect(SERVER_ADDR, uflow::client::Config { endpoint_config: ep.build() })).unwrap();
    let addr = c.local_address();
    let mut p = ClientPeer { c, addr, server: SERVER_ADDR.parse().unwrap(), closed: false };
    p.take_sent();
    p.deliver(&wire::encode(&Frame::SynAck { nonce_ack: tbase, nonce: base, rate: 1 << 30, psize: 1, alloc: 1 << 30 }));
    let o = p.step();
    assert!(o.contains(&Out::Connect), "HARNESS: no connection");
    p.take_sent();
    Target { peer: Box::new(p), base, tbase, what: "C" }
}

/// win: packet window; only bare half connections have windows other than 4096
pub fn target(r: &mut Rng, alloc: usize, psize: usize, base: u32, tbase: u32, win: &mut u32, slow: bool) -> Target {
    let rate = if slow { *r.pick(&[1usize, 2000]) } else { 2_000_000 };
    let ep = EpCfg { psize, alloc, send_rate: rate, ..EpCfg::default() };
    match r.below(if cfg!(feature = "hc") { 4 } else { 2 }) {
        0 => { *win = 4096; server_target(&ep, base, tbase) }
        1 => { *win = 4096; client_target(&ep, base, tbase) }
        #[cfg(feature = "hc")]
        _ => {
            let c = hc::HcCfg { frame_win: 4096, packet_win: *win, tx_rate: rate as u32, tx_alloc: 1 << 30, rx_alloc: alloc, keepalive_ms: None };
            Target { peer: Box::new(hc::HcPeer::new(&c, tbase, base)), base, tbase, what: "H" }
        }
        #[cfg(not(feature = "hc"))]
        _ => unreachable!(),
    }
}

pub fn nonce(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 0xffff_ffffu32.wrapping_sub(r.below(60) as u32),
        1 => 0x000f_ffffu32.wrapping_sub(r.below(100) as u32) | (r.u32() << 20),
        2 => r.below(3) as u32,
        _ => r.u32(),
    }
}

struct Pk { pid: u32, ch: u8, mode: u8, wl: u16, cl: u16, len: usize, last: u16, parent: usize, alloc: usize }

struct Rx {
    t: Target,
    reg: Registry,
    pk: Vec<Pk>,
    zero: usize,
    ev: Vec<String>,
    /// genuine fragments consumed since the last step
    got: Vec<(usize, u16)>,
    seq: u32,
    now: u64,
    /// packet window base reported by the target
    pb: u32,
    delivered: Vec<usize>,
    base_mem: u64,
}

impl Rx {
    fn frame(&mut self, r: &mut Rng, dgs: Vec<Dg>) {
        let d = wire::encode(&Frame::Data { seq: self.seq, nonce: r.chance(0.5), dgs });
        // Some frames are lost
        self.seq = self.seq.wrapping_add(1 + if r.chance(0.1) { r.below(40) as u32 } else { 0 });
        debug_assert!(d.len() <= 1472);
        self.t.peer.deliver(&d);
    }

    fn step(&mut self, dt: u64) {
        self.now += dt;
        set_ms(self.now);
        if !self.got.is_empty() {
            let s: Vec<String> = self.got.drain(..).map(|(u, f)| format!("[{},{}]", u, f)).collect();
            self.ev.push(format!("{{\"e\":\"F\",\"d\":[{}]}}", s.join(",")));
        }
        let outs = self.t.peer.step();
        let mut v = String::new();
        for o in outs {
            if let Out::Recv(d) = o {
                let u = self.reg.identify(&d, &mut self.zero) as usize;
                if u > 0 { self.delivered.push(u); }
                if !v.is_empty() { v.push(','); }
                write!(v, "{}", u).unwrap();
            } else {
                self.ev.push(format!("{{\"e\":\"C\",\"t\":{}}}", self.now));
            }
        }
        for d in self.t.peer.take_sent() {
            if let Some(Frame::Acks { pb, .. }) = wire::decode(&d) {
                let rel = pb.wrapping_sub(self.t.base) & 0xfffff;
                if rel > self.pb && rel < self.pb + 8192 { self.pb = rel; }
            }
        }
        let m = heap::bytes().saturating_sub(self.base_mem);
        self.ev.push(format!("{{\"e\":\"X\",\"t\":{},\"v\":[{}],\"m\":{}}}", self.now, v, m));
    }

    fn dg(&self, u: usize, f: u16) -> Dg {
        let p = &self.pk[u - 1];
        Dg { pid: p.pid, ch: p.ch, wl: p.wl, cl: p.cl, frag: f, last: p.last, data: self.reg.fragment(u as u32, f).unwrap().to_vec() }
    }

    /// A datagram which contradicts packet `u`, some of which has been received already
    fn contradict(&self, r: &mut Rng, u: usize, seen: u16) -> Dg {
        let p = &self.pk[u - 1];
        let mut d = Dg { pid: p.pid, ch: p.ch, wl: p.wl, cl: p.cl, frag: r.below(p.last as u64 + 1) as u16, last: p.last, data: Vec::new() };
        match r.below(6) {
            0 if p.last > 0 => d.last = p.last - 1,
            0 | 1 => d.last = p.last.saturating_add(*r.pick(&[1u16, 1, 7, 64])),
            2 => d.ch = if r.chance(0.5) { p.ch ^ 1 } else { r.below(64) as u8 },
            3 => { d.wl = p.wl.wrapping_add(1); if d.cl < d.wl { d.cl = d.wl; } }
            4 => { d.cl = if p.cl == 0 { p.wl.max(1) } else { p.cl.saturating_add(1) }; if d.wl == 0 { d.wl = 1; } }
            _ => { d.wl = 0; d.cl = 0; }
        }
        if (d.last, d.ch, d.wl, d.cl) == (p.last, p.ch, p.wl, p.cl) { d.last = p.last + 1; }
        // Fragments still missing are of particular interest
        d.frag = match r.below(4) { 0 => seen, 1 => p.last, _ => r.below(p.last as u64 + 1) as u16 }.min(d.last);
        let n = if d.frag < d.last { FRAG } else { *r.pick(&[0usize, 1, 100, 1448]) };
        d.data = vec![0xbb; n];
        if r.chance(0.1) { d.frag = d.last + 1; }
        d
    }

    fn outside(&self, r: &mut Rng, win: u32) -> Dg {
        let far = match r.below(4) {
            0 => self.t.base.wrapping_add(self.pk.len() as u32 + win + r.below(4) as u32),
            1 => self.t.base.wrapping_sub(1 + r.below(5) as u32),
            2 => self.t.base.wrapping_sub(win - r.below(3.min(win as u64)) as u32),
            _ => self.t.base.wrapping_add(500_000),
        };
        Dg { pid: far & 0xfffff, ch: r.below(64) as u8, wl: 0, cl: 0, frag: 0, last: r.below(2) as u16, data: vec![0xdd; FRAG] }
    }

    fn line(&self, job: &str, kind: &str, limit: usize, win: u32, slack: u64) -> String {
        let pk: Vec<String> = self.pk.iter().map(|p| format!("[{},{},{},{},{}]", p.ch, p.mode, p.len, p.last + 1, p.parent)).collect();
        format!("{{\"fam\":\"R\",\"job\":\"{}\",\"kind\":\"{}\",\"tgt\":\"{}\",\"limit\":{},\"win\":{},\"slack\":{},\"pk\":[{}],\"ev\":[{}]}}",
            job, kind, self.t.what, limit, win, slack, pk.join(","), self.ev.join(","))
    }
}

fn alloc_of(len: usize) -> usize { if len <= FRAG { len } else { (len + FRAG - 1) / FRAG * FRAG } }

fn lens(r: &mut Rng) -> Vec<usize> {
    match r.below(6) {
        0 => vec![0, 1, 1447, 1448, 1449],
        1 => vec![2895, 2896, 2897, 1448, 8],
        2 => vec![4343, 4344, 4345, 1],
        3 => vec![8, 63, 64, 65, 255, 256, 257],
        4 => vec![10_000, 20_000, 14_480, 14_481, 30],
        _ => vec![8, 1449, 3000, 5792, 7240, 100],
    }
}

pub fn run(kind: &str, idx: u64, seed: u64) -> String {
    let s = mix(mix(seed, idx), kind.bytes().fold(29u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let mut rr = Rng::new(s);
    let r = &mut rr;
    let job = format!("recv:{}:{}", kind, idx);
    reset_env(s);
    heap::start(0);
    let line = match kind {
        "asm" | "hold" => packets(kind, &job, r),
        "big" => packets(kind, &job, r),
        "flood" => flood(&job, r),
        "wrap" => wrap(&job, r),
        _ => panic!("unknown kind"),
    };
    net::reset();
    heap::finish();
    line
}

/// Consistent packets; "asm" respects the receiver's limits, "hold" does not
fn packets(kind: &str, job: &str, r: &mut Rng) -> String {
    let hold = kind == "hold";
    let big = kind == "big";
    let mut win = *r.pick(&[8u32, 16, 64, 4096]);
    let ls = lens(r);
    let limit = if hold { *r.pick(&[1usize, 1448, 1449, 5000, 20_000]) } else if big { 1_000_000 } else { *r.pick(&[0usize, 0, 6000, 30_000, 1_000_000]) };
    let maxlen = ls.iter().copied().max().unwrap();
    let limit = if hold || big { limit } else { limit.max(maxlen) };
    let ceil = (limit + FRAG - 1) / FRAG * FRAG;
    let (base, tbase) = (nonce(r), nonce(r));
    let t = target(r, limit, if hold { 1 } else { maxlen.min(limit).max(1) }, base, tbase, &mut win, false);
    let n = if big { r.range(2, 5) } else { r.range(3, 30) } as usize;
    let nch = *r.pick(&[1u64, 2, 5]);
    let chs: Vec<u8> = (0..nch).map(|_| r.below(64) as u8).collect();
    let all_rel = hold || r.chance(0.5);
    let mut x = Rx { t, reg: Registry::default(), pk: Vec::new(), zero: 0, ev: Vec::new(), got: Vec::new(), seq: base, now: 0, pb: 0, delivered: Vec::new(), base_mem: heap::bytes() };
    let res = pool::guard(|| {
        // The packets, and their leads
        let mut lastrel: Option<usize> = None;
        let mut zero_used = false;
        for i in 0..n {
            let ch = *r.pick(&chs);
            let mode = if all_rel || r.chance(0.6) { 3 } else { 1 };
            let mut len = if big { *r.pick(&[300_000usize, 999_999, 1_000_000, 724_000, 723_999]) } else { *r.pick(&ls) };
            if len == 0 { if zero_used { len = 1; } zero_used = true; }
            if hold && r.chance(0.3) { len = *r.pick(&[limit, limit + 1, ceil, ceil + 1, 1448, 2896]); }
            let (_, d) = x.reg.add(9, len.max(if len == 0 { 0 } else { 1 }));
            let parent = x.pk.iter().rposition(|p| p.ch == ch && p.mode == 3).map_or(0, |j| j + 1);
            let wl = lastrel.map_or(0, |j| (i - j) as u16);
            let cl = if parent > 0 { (i + 1 - parent) as u16 } else { 0 };
            if mode == 3 { lastrel = Some(i); }
            let last = if d.len() <= FRAG { 0 } else { ((d.len() + FRAG - 1) / FRAG - 1) as u16 };
            x.pk.push(Pk { pid: (base.wrapping_add(i as u32)) & 0xfffff, ch, mode, wl, cl, len: d.len(), last, parent, alloc: alloc_of(d.len()) });
        }
        let noise = *r.pick(&[0.0, 0.2, 0.6]);
        let dup = *r.pick(&[0.0, 0.3, 0.6]);
        let mut queue: Vec<(usize, u16)> = Vec::new();
        let mut seen: Vec<Vec<u16>> = vec![Vec::new(); n];
        let mut next = 0;
        let mut withheld: Vec<(usize, u16)> = Vec::new();
        let hold_first = hold || r.chance(0.3);
        // Released together with a later packet's fragments
        let spread = *r.pick(&[1usize, 4, 50, 1000]);
        let mut idle = 0;
        let mut guard = 0;
        while idle < 60 && guard < 3000 {
            guard += 1;
            // Packets the limits allow to be outstanding
            while next < n {
                let lead = next as u32 - x.pb.min(next as u32);
                let out: usize = x.pk[(x.pb as usize).min(next)..next].iter().map(|p| p.alloc).sum();
                if lead >= win || (!hold && out + x.pk[next].alloc > ceil.max(1)) { break; }
                let u = next + 1;
                for f in 0..=x.pk[next].last { queue.push((u, f)); }
                if hold_first && next == 0 {
                    // One fragment of the first packet arrives late
                    let p = queue.len() - 1 - r.below(x.pk[0].last as u64 + 1) as usize;
                    let y = queue.remove(p);
                    withheld.push(y);
                }
                next += 1;
            }
            if queue.is_empty() && !withheld.is_empty() && (next == n || idle > 5) { queue.append(&mut withheld); }
            let mut dgs: Vec<Dg> = Vec::new();
            let mut size = 10;
            let want = r.range(1, 8);
            let mut k = 0;
            while k < want && !queue.is_empty() {
                k += 1;
                let j = r.below(queue.len().min(spread) as u64) as usize;
                let (u, f) = queue[j];
                // Fragments of packets which the channel has moved past are not received at all
                let over = x.delivered.iter().any(|d| *d > u && x.pk[d - 1].ch == x.pk[u - 1].ch);
                let d = x.dg(u, f);
                let z = wire::dg_size(&d);
                if size + z > 1472 { continue; }
                size += z;
                dgs.push(d);
                queue.remove(j);
                x.got.push((u, f));
                if !over { seen[u - 1].push(f); }
                if r.chance(dup) { withheld_push(&mut queue, (u, f), r); }
                if r.chance(noise) && !seen[u - 1].is_empty() {
                    let d = x.contradict(r, u, f);
                    let z = wire::dg_size(&d);
                    if size + z <= 1472 { size += z; dgs.push(d); }
                }
            }
            if dgs.is_empty() || r.chance(noise) {
                let d = if r.chance(0.5) || seen.iter().all(|s| s.is_empty()) { x.outside(r, win) } else {
                    let c: Vec<usize> = (1..=n).filter(|u| !seen[u - 1].is_empty()).collect();
                    let u = *r.pick(&c);
                    let f = *r.pick(&seen[u - 1]);
                    // Contradictions and stale copies
                    if r.chance(0.7) { x.contradict(r, u, f) } else { x.dg(u, f) }
                };
                if r.chance(noise) && size + wire::dg_size(&d) <= 1472 { dgs.push(d); }
            }
            if !dgs.is_empty() { x.frame(r, dgs); }
            if queue.is_empty() && withheld.is_empty() { idle += 1; }
            let p = *r.pick(&[0.3, 1.0, 0.05]);
            if r.chance(p) || queue.is_empty() { x.step(1 + r.below(30)); }
        }
        for _ in 0..3 { x.step(100); }
        x.ev.push("{\"e\":\"E\"}".to_string());
    });
    if let Err(m) = res { x.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); }
    // Bookkeeping per packet and fragment
    let frags: u64 = x.pk.iter().map(|p| p.last as u64 + 1).sum();
    let slack = 4000 + 256 * n as u64 + 32 * frags;
    let l = x.line(job, kind, ceil, win, slack);
    pool::forget_on_panic(x);
    l
}

fn withheld_push(q: &mut Vec<(usize, u16)>, y: (usize, u16), r: &mut Rng) {
    if q.len() < 5000 { let p = r.below(q.len() as u64 + 1) as usize; q.insert(p, y); }
}

/// Arbitrary datagrams, chosen to make the receiver hold as much as possible
fn flood(job: &str, r: &mut Rng) -> String {
    let mut win = *r.pick(&[16u32, 4096]);
    let limit = *r.pick(&[1usize, 1448, 10_000, 100_000, 1_000_000]);
    let ceil = (limit + FRAG - 1) / FRAG * FRAG;
    let (base, tbase) = (nonce(r), nonce(r));
    let slow = r.chance(0.5);
    let t = target(r, limit, 1, base, tbase, &mut win, slow);
    let mut x = Rx { t, reg: Registry::default(), pk: Vec::new(), zero: 0, ev: Vec::new(), got: Vec::new(), seq: base, now: 0, pb: 0, delivered: Vec::new(), base_mem: heap::bytes() };
    let style = r.below(7);
    let res = pool::guard(|| {
        let rounds = if style == 5 { 220 } else { r.range(20, 120) };
        let mut pid = base;
        for _ in 0..rounds {
            for _ in 0..if style >= 5 { 100 } else { r.range(1, 60) } {
                let mut dgs = Vec::new();
                let mut size = 10;
                for _ in 0..r.range(1, 120) {
                    let off = match style { 0 | 1 => { pid = pid.wrapping_add(1); pid } _ => base.wrapping_add(x.pb).wrapping_add(r.below(win as u64 + 4) as u32) } & 0xfffff;
                    let last = match style {
                        0 => 0,
                        1 => *r.pick(&[1u16, 2, 6, 68]),
                        2 => *r.pick(&[0u16, 1, 2, 100, 65535]),
                        3 => 1,
                        _ => { let k = r.below(17); (1u32 << k).saturating_sub(1) as u16 }
                    };
                    let frag = match style { 3 => r.below(2) as u16, _ => if r.chance(0.5) { last } else { 0 } };
                    let n = if frag < last { FRAG } else { *r.pick(&[0usize, 1, 5, 40, 100, 1448]) };
                    let rel = (off.wrapping_sub(base.wrapping_add(x.pb)) & 0xfffff) as u16;
                    // Parents which never arrive
                    let (wl, cl) = match r.below(5) { 0 => (0, 0), 1 => (1, 1), 2 => (rel.max(1), rel.max(1)), 3 => (1, rel.max(1)), _ => (1 + r.below(4) as u16, 4 + r.below(10) as u16) };
                    let d = Dg { pid: off, ch: r.below(64) as u8, wl, cl, frag, last, data: vec![0xee; n] };
                    let z = wire::dg_size(&d);
                    if size + z > 1472 { break; }
                    size += z;
                    dgs.push(d);
                }
                let d = match r.below(12) {
                    0 => Frame::Sync { frame: if style >= 5 { None } else { let k = r.below(200) as u32; x.seq = x.seq.wrapping_add(k); Some(x.seq) }, packet: Some(base.wrapping_add(x.pb).wrapping_add(r.below(win as u64 * 2) as u32) & 0xfffff) },
                    1 => Frame::Acks { fb: tbase.wrapping_add(r.below(5) as u32), pb: tbase.wrapping_add(r.below(3) as u32) & 0xfffff, groups: Vec::new() },
                    _ => { if style == 5 { dgs.clear(); } Frame::Data { seq: x.seq, nonce: r.chance(0.5), dgs } }
                };
                x.t.peer.deliver(&wire::encode(&d));
                let skip = if style >= 5 { *r.pick(&[33u32, 40, 64]) } else { 1 };
                x.seq = x.seq.wrapping_add(skip);
            }
            let dt = *r.pick(&[1u64, 10, 100]);
            x.step(dt);
        }
        x.ev.push("{\"e\":\"E\"}".to_string());
    });
    if let Err(m) = res { x.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); }
    let l = x.line(job, "flood", ceil, win, 200_000);
    pool::forget_on_panic(x);
    l
}

/// Replays a behaviour of Assembly.tla. "W,win,lim,polite k,ch,rel,nf.. <actions>": f fragment,
/// d copy, c contradiction, o id outside of the window, e too early, s sync, r step
pub fn replay(line: &str, idx: u64, seed: u64) -> String {
    let s = mix(mix(seed, idx), 977);
    let mut rr = Rng::new(s);
    let r = &mut rr;
    let job = format!("asm:{}", idx);
    reset_env(s);
    heap::start(0);
    let acts: Vec<(&str, Vec<u32>)> = line.split(' ').map(|a| {
        let mut p = a.split(',');
        (p.next().unwrap(), p.map(|x| x.parse().unwrap()).collect())
    }).collect();
    let (mwin, lim, polite) = (acts[0].1[0], acts[0].1[1] as usize, acts[0].1[2] == 1);
    let pk: Vec<&Vec<u32>> = acts.iter().filter(|a| a.0 == "k").map(|a| &a.1).collect();
    // The limit is rounded up to whole fragments
    let limit = lim * FRAG - if r.chance(0.5) { 0 } else { r.below(FRAG as u64) as usize };
    let mut win = mwin;
    let (base, tbase) = (nonce(r), nonce(r));
    let t = loop {
        // Endpoints have a larger window: only for senders which keep to the smaller one
        let mut w = mwin;
        let t = target(r, limit, 1, base, tbase, &mut w, false);
        if w == mwin || polite { win = w; break t; }
        drop(t);
        net::reset();
        if cfg!(not(feature = "hc")) { panic!("HARNESS: needs internals"); }
    };
    let mut x = Rx { t, reg: Registry::default(), pk: Vec::new(), zero: 0, ev: Vec::new(), got: Vec::new(), seq: base, now: 0, pb: 0, delivered: Vec::new(), base_mem: heap::bytes() };
    let chs = { let a = r.below(64) as u8; let b = (a as u64 + 1 + r.below(63)) % 64; [a, b as u8] };
    let res = pool::guard(|| {
        let mut lastrel: Option<usize> = None;
        let mut zero_used = false;
        for (i, k) in pk.iter().enumerate() {
            let (ch, rel, nf) = (chs[k[0] as usize], k[1] == 1, k[2] as usize);
            let mut n = match r.below(4) { 0 => FRAG, 1 => 1, _ => 1 + r.below(FRAG as u64) as usize };
            if nf == 1 && !zero_used && r.chance(0.1) { n = 0; zero_used = true; }
            let (_, d) = x.reg.add(9, (nf - 1) * FRAG + n);
            let parent = x.pk.iter().rposition(|p| p.ch == ch && p.mode == 3).map_or(0, |j| j + 1);
            let wl = lastrel.map_or(0, |j| (i - j) as u16);
            let cl = if parent > 0 { (i + 1 - parent) as u16 } else { 0 };
            if rel { lastrel = Some(i); }
            x.pk.push(Pk { pid: base.wrapping_add(i as u32) & 0xfffff, ch, mode: if rel { 3 } else { 1 }, wl, cl, len: d.len(), last: (nf - 1) as u16, parent, alloc: alloc_of(d.len()) });
        }
        let n = x.pk.len();
        // The sender stops early, or waits: what it may send now
        let mut seen: Vec<Vec<u16>> = vec![Vec::new(); n];
        let mut synced = 0usize;
        // Several frames, or one with several datagrams
        let mut dgs: Vec<Dg> = Vec::new();
        let join = r.chance(0.5);
        let may = |x: &Rx, u: usize| -> bool {
            let b = x.pb as usize;
            let a: usize = x.pk[b.min(u)..u].iter().map(|p| p.alloc).sum();
            (u as u32) <= x.pb + win && (!polite || a <= (limit + FRAG - 1) / FRAG * FRAG)
        };
        let mut abandoned: Vec<usize> = Vec::new();
        for (a, v) in acts.iter() {
            let mut out: Option<Dg> = None;
            match *a {
                "f" => {
                    let (u, f) = (v[0] as usize, v[1] as u16);
                    if may(&x, u) {
                        out = Some(x.dg(u, f));
                        x.got.push((u, f));
                        seen[u - 1].push(f);
                    }
                }
                "d" if seen[v[0] as usize - 1].contains(&(v[1] as u16)) => out = Some(x.dg(v[0] as usize, v[1] as u16)),
                "c" => {
                    let u = v[0] as usize;
                    // Contradictions of fragments which certainly were accepted
                    if !seen[u - 1].is_empty() { let f = *r.pick(&seen[u - 1]); out = Some(x.contradict(r, u, f)); }
                }
                "o" => out = Some(x.outside(r, win)),
                "e" => {
                    let u = v[0] as usize;
                    if !polite && u as u32 > x.pb + win { out = Some(x.dg(u, 0)); }
                }
                "s" => {
                    let nx = v[0] as usize;
                    // The sender has been told of everything it relies on
                    if (1..nx).all(|u| x.pk[u - 1].mode != 3 || seen[u - 1].len() == x.pk[u - 1].last as usize + 1) {
                        if !dgs.is_empty() { let d = std::mem::take(&mut dgs); x.frame(r, d); }
                        let f = if r.chance(0.3) { Some(x.seq) } else { None };
                        x.t.peer.deliver(&wire::encode(&Frame::Sync { frame: f, packet: Some(base.wrapping_add(nx as u32 - 1) & 0xfffff) }));
                        for u in 1..nx {
                            if seen[u - 1].len() != x.pk[u - 1].last as usize + 1 && !abandoned.contains(&u) { abandoned.push(u); }
                        }
                        synced = synced.max(nx - 1);
                    }
                }
                "r" => {
                    if !dgs.is_empty() { let d = std::mem::take(&mut dgs); x.frame(r, d); }
                    x.step(1 + r.below(30));
                }
                _ => {}
            }
            if let Some(d) = out {
                let size: usize = dgs.iter().map(wire::dg_size).sum();
                if !dgs.is_empty() && (!join || size + wire::dg_size(&d) > 1400) { let d = std::mem::take(&mut dgs); x.frame(r, d); }
                if wire::dg_size(&d) + 10 <= 1472 { dgs.push(d); }
            }
        }
        if !dgs.is_empty() { let d = std::mem::take(&mut dgs); x.frame(r, d); }
        x.step(1);
        // Everything arrives in the end, as soon as the sender may send it
        for _ in 0..3 * n + 3 {
            for u in 1..=n {
                if u <= synced && x.pk[u - 1].mode != 3 { continue; }
                for f in 0..=x.pk[u - 1].last {
                    if seen[u - 1].contains(&f) || !may(&x, u) { continue; }
                    let d = x.dg(u, f);
                    x.frame(r, vec![d]);
                    x.got.push((u, f));
                    seen[u - 1].push(f);
                }
            }
            x.step(1 + r.below(30));
        }
        let ab: Vec<String> = abandoned.iter().map(|u| u.to_string()).collect();
        x.ev.push(format!("{{\"e\":\"A\",\"d\":[{}]}}", ab.join(",")));
        x.ev.push("{\"e\":\"E\"}".to_string());
    });
    if let Err(m) = res { x.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); }
    let frags: u64 = x.pk.iter().map(|p| p.last as u64 + 1).sum();
    let slack = 4000 + 256 * x.pk.len() as u64 + 32 * frags;
    let l = x.line(&job, if polite { "asm" } else { "hold" }, (limit + FRAG - 1) / FRAG * FRAG, win, slack);
    pool::forget_on_panic(x);
    net::reset();
    heap::finish();
    l
}

/// Packet ids come round: frames of the previous cycle arrive once more, in the middle of packets
/// which have the same ids. The packets in between are counted only.
fn wrap(job: &str, r: &mut Rng) -> String {
    let mut win = *r.pick(&[64u32, 4096]);
    let (base, tbase) = (nonce(r), nonce(r));
    let t = target(r, 1_000_000, 1, base, tbase, &mut win, false);
    let mut x = Rx { t, reg: Registry::default(), pk: Vec::new(), zero: 0, ev: Vec::new(), got: Vec::new(), seq: base, now: 0, pb: 0, delivered: Vec::new(), base_mem: heap::bytes() };
    const CYCLE: u32 = 1 << 20;
    let m = r.range(20, 60) as usize;
    let nch = r.range(1, 4);
    let chs: Vec<u8> = (0..nch).map(|_| r.below(64) as u8).collect();
    let res = pool::guard(|| {
        // The same ids twice: m packets of the first cycle, m of the second
        let shift = r.below(m as u64) as u32;
        let mut lastrel: Option<usize> = None;
        for i in 0..2 * m {
            let ch = *r.pick(&chs);
            let mode = if r.chance(0.5) { 3 } else { 1 };
            let n = *r.pick(&[8usize, 8, 20, 200, 1448, 1449, 3000]);
            let (_, d) = x.reg.add(9, n);
            if i == m { lastrel = None; }
            let parent = x.pk.iter().rposition(|p| p.ch == ch && p.mode == 3).map_or(0, |j| j + 1);
            let wl = lastrel.map_or(0, |j| (i - j) as u16);
            let cl = if parent > 0 && (i < m || parent > m) { (i + 1 - parent) as u16 } else { 0 };
            if mode == 3 { lastrel = Some(i); }
            let off = if i < m { i as u32 } else { CYCLE - shift + (i - m) as u32 };
            x.pk.push(Pk { pid: base.wrapping_add(off) & 0xfffff, ch, mode, wl, cl, len: d.len(), last: alloc_of(d.len()).saturating_sub(1).checked_div(FRAG).unwrap_or(0) as u16, parent, alloc: alloc_of(d.len()) });
        }
        let mut old: Vec<Vec<u8>> = Vec::new();
        let feed = |x: &mut Rx, r: &mut Rng, a: usize, b: usize, old: &mut Vec<Vec<u8>>, keep: bool| {
            for u in a + 1..=b {
                for f in 0..=x.pk[u - 1].last {
                    let d = x.dg(u, f);
                    let bytes = wire::encode(&Frame::Data { seq: x.seq, nonce: r.chance(0.5), dgs: vec![d] });
                    x.seq = x.seq.wrapping_add(1);
                    x.t.peer.deliver(&bytes);
                    if keep { old.push(bytes); }
                    x.got.push((u, f));
                    if !keep && r.chance(0.5) { let o = r.pick(old).clone(); x.t.peer.deliver(&o); }
                }
                if !keep { for _ in 0..r.below(3) { let o = r.pick(old).clone(); x.t.peer.deliver(&o); } }
                if r.chance(0.5) || u == b { x.step(1 + r.below(20)); }
            }
        };
        feed(&mut x, r, 0, m, &mut old, true);
        x.step(5);
        // Everything in between
        let n = CYCLE - shift - m as u32;
        let (mut sent, mut came, mut bad) = (0u32, 0u32, 0u32);
        let mut pid = base.wrapping_add(m as u32) & 0xfffff;
        while sent < n {
            // A window is never exceeded
            let mut left = (win / 2).min(n - sent);
            while left > 0 {
                let k = left.min(127);
                let dgs: Vec<Dg> = (0..k).map(|j| Dg { pid: (pid + j) & 0xfffff, ch: chs[0], wl: 0, cl: 0, frag: 0, last: 0, data: vec![0x77, 1, 2] }).collect();
                let bytes = wire::encode(&Frame::Data { seq: x.seq, nonce: false, dgs });
                x.seq = x.seq.wrapping_add(1);
                x.t.peer.deliver(&bytes);
                pid = (pid + k) & 0xfffff;
                sent += k;
                left -= k;
            }
            x.now += 1;
            set_ms(x.now);
            for o in x.t.peer.step() {
                if let Out::Recv(d) = o { came += 1; if d.as_ref() != [0x77, 1, 2] { bad += 1; } }
            }
            x.t.peer.take_sent();
        }
        x.ev.push(format!("{{\"e\":\"W\",\"sent\":{},\"got\":{},\"bad\":{}}}", sent, came, bad));
        feed(&mut x, r, m, 2 * m, &mut old, false);
        for _ in 0..3 { x.step(100); }
        x.ev.push("{\"e\":\"E\"}".to_string());
    });
    if let Err(e) = res { x.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", e)); }
    let l = x.line(job, "asm", 1_000_000 / FRAG * FRAG + FRAG, win, 1_000_000);
    pool::forget_on_panic(x);
    l
}
