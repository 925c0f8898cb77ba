//! Very long transfers between two real connections: packet ids come round, parents lie tens of
//! thousands of packets back, frames of earlier cycles return. Only some of the packets are
//! recorded one by one (for the receiver observer); the ones in between are counted.
use crate::content::Registry;
use crate::heap;
use crate::peers::*;
use crate::pool;
use crate::recv::nonce;
use crate::rng::{mix, Rng};
use crate::wire::{self, Frame, FRAG};
use std::collections::VecDeque;

const FILL: [u8; 3] = [0x77, 1, 2];

struct Long {
    p: [Box<dyn Peer>; 2],
    reg: Registry,
    pk: Vec<(u8, u8, usize, usize)>,
    ev: Vec<String>,
    now: u64,
    /// frames under way, in both directions
    way: [VecDeque<Vec<u8>>; 2],
    old: Vec<Vec<u8>>,
    /// frames are lost while recorded packets are under way
    loss: f64,
    replay: f64,
    fill_sent: u64,
    fill_got: u64,
    bad: u64,
}

impl Long {
    fn mark(&mut self, r: &mut Rng, chs: &[u8]) {
        let ch = *r.pick(chs);
        let mode = if r.chance(0.6) { 3 } else { 1 };
        let n = *r.pick(&[8usize, 8, 30, 300, 1448, 1460, 3000]);
        let (_, d) = self.reg.add(9, n);
        let parent = self.pk.iter().rposition(|p| p.0 == ch && p.1 == 3).map_or(0, |j| j + 1);
        self.pk.push((ch, mode, n, parent));
        self.p[0].send(d, ch as usize, MODES[mode as usize]);
    }

    /// 5 ms: both ends step, frames travel
    fn round(&mut self, r: &mut Rng, loss: bool) {
        self.now += 5;
        set_ms(self.now);
        let mut got: Vec<String> = Vec::new();
        for d in std::mem::take(&mut self.way[0]) {
            let mut marked = Vec::new();
            if let Some(Frame::Data { dgs, .. }) = wire::decode(&d) {
                for g in dgs {
                    if g.data != FILL {
                        let u = if g.data.len() >= 3 { g.data[0] as usize | (g.data[1] as usize) << 8 | (g.data[2] as usize) << 16 } else { 0 };
                        // The last fragment of a packet may be too short to carry its number
                        if u >= 1 && u <= self.pk.len() && self.reg.fragment(u as u32, g.frag) == Some(&g.data[..]) { marked.push((u, g.frag)); }
                    }
                }
            }
            if loss && r.chance(self.loss) { continue; }
            self.p[1].deliver(&d);
            if !marked.is_empty() {
                for (u, f) in marked { got.push(format!("[{},{}]", u, f)); }
                if self.old.len() < 400 { self.old.push(d); }
            }
        }
        if !self.old.is_empty() && r.chance(self.replay) {
            for _ in 0..1 + r.below(4) { let d = r.pick(&self.old).clone(); self.p[1].deliver(&d); }
        }
        if !got.is_empty() { self.ev.push(format!("{{\"e\":\"F\",\"d\":[{}]}}", got.join(","))); }
        let mut v: Vec<String> = Vec::new();
        let mut zero = 0;
        for o in self.p[1].step() {
            match o {
                Out::Recv(d) if d == FILL => self.fill_got += 1,
                Out::Recv(d) => v.push(self.reg.identify(&d, &mut zero).to_string()),
                Out::Connect => {}
                _ => self.ev.push(format!("{{\"e\":\"C\",\"t\":{}}}", self.now)),
            }
        }
        self.p[1].flush();
        let b = self.p[1].take_sent();
        if !got.is_empty() || !v.is_empty() { self.ev.push(format!("{{\"e\":\"X\",\"t\":{},\"v\":[{}],\"m\":0}}", self.now, v.join(","))); }
        for d in std::mem::take(&mut self.way[1]) { if !(loss && r.chance(self.loss)) { self.p[0].deliver(&d); } }
        for o in self.p[0].step() {
            if let Out::Disconnect | Out::Error(_) = o { self.ev.push(format!("{{\"e\":\"C\",\"t\":{}}}", self.now)); }
        }
        self.p[0].flush();
        let a = self.p[0].take_sent();
        self.way[0].extend(a);
        self.way[1].extend(b);
    }

    fn drain(&mut self, r: &mut Rng, loss: bool, secs: u64) -> bool {
        for _ in 0..secs * 200 {
            if self.p[0].sbs() == 0 { return true; }
            self.round(r, loss);
        }
        false
    }

    fn fill(&mut self, r: &mut Rng, n: u64, chs: &[u8]) {
        let mut left = n;
        while left > 0 {
            if self.p[0].sbs() < 12_000 {
                let k = left.min(4000);
                for _ in 0..k { self.p[0].send(FILL.to_vec(), *r.pick(chs) as usize, MODES[1]); }
                left -= k;
                self.fill_sent += k;
            }
            self.round(r, false);
            if self.now > 3_600_000 { return; }
        }
    }
}

pub fn run(kind: &str, idx: u64, seed: u64) -> String {
    let s = mix(mix(seed, idx), kind.bytes().fold(71u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let mut rr = Rng::new(s);
    let r = &mut rr;
    reset_env(s);
    heap::start(0);
    let (na, nb) = (nonce(r), nonce(r));
    let p: [Box<dyn Peer>; 2] = if cfg!(not(feature = "hc")) || r.chance(0.4) {
        let e = EpCfg::default();
        let (c, s) = ep_pair(&e, &e, na, nb);
        if r.chance(0.5) { [Box::new(c), Box::new(s)] } else { [Box::new(s), Box::new(c)] }
    } else {
        #[cfg(feature = "hc")]
        {
            let w = *r.pick(&[4096u32, 1024]);
            let c = hc::HcCfg { frame_win: 4096, packet_win: w, tx_rate: 2_000_000, tx_alloc: 1_000_000, rx_alloc: 1_000_000, keepalive_ms: None };
            [Box::new(hc::HcPeer::new(&c, na, nb)), Box::new(hc::HcPeer::new(&c, nb, na))]
        }
        #[cfg(not(feature = "hc"))]
        unreachable!()
    };
    let mut x = Long { p, reg: Registry::default(), pk: Vec::new(), ev: Vec::new(), now: 0, way: Default::default(), old: Vec::new(),
                       loss: *r.pick(&[0.0, 0.05, 0.2]), replay: *r.pick(&[0.0, 0.02, 0.2]), fill_sent: 0, fill_got: 0, bad: 0 };
    let mut stuck = false;
    let res = pool::guard(|| {
        let nch = r.range(1, 4);
        let chs: Vec<u8> = (0..nch).map(|_| r.below(64) as u8).collect();
        // Packets in between use the same channels, or one of their own
        let own: Vec<u8> = if r.chance(0.5) { chs.clone() } else { vec![(0..64u8).find(|c| !chs.contains(c)).unwrap()] };
        for _ in 0..60 { if x.p.iter().all(|p| p.phase() == Phase::Active) { break; } x.round(r, false); }
        let far = kind == "cycle";
        let blocks = if far { 2 } else { r.range(2, 4) };
        for b in 0..blocks {
            let m = r.range(2, 30);
            for _ in 0..m { x.mark(r, &chs); if r.chance(0.2) { x.round(r, true); } }
            if !x.drain(r, true, 600) { stuck = true; break; }
            // Frames under way arrive
            for _ in 0..3 { x.round(r, true); }
            if b + 1 == blocks { break; }
            let n = if far { (1 << 20) - r.below(m + 20) } else { *r.pick(&[65_536u64, 65_536, 131_072, 32_768]) + 3 - r.below(40) };
            x.fill(r, n, &own);
            if !x.drain(r, false, 600) { stuck = true; break; }
            for _ in 0..3 { x.round(r, false); }
        }
        for _ in 0..5 { x.round(r, false); }
        x.ev.push(format!("{{\"e\":\"W\",\"sent\":{},\"got\":{},\"bad\":{}}}", x.fill_sent, x.fill_got, x.bad));
        x.ev.push(format!("{{\"e\":\"Z\",\"n\":{},\"stuck\":{}}}", x.p[0].sbs(), stuck));
        x.ev.push("{\"e\":\"E\"}".to_string());
    });
    if let Err(e) = res { x.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", e)); }
    let pk: Vec<String> = x.pk.iter().map(|p| format!("[{},{},{},{},{}]", p.0, p.1, p.2, if p.2 <= FRAG { 1 } else { (p.2 + FRAG - 1) / FRAG }, p.3)).collect();
    let l = format!("{{\"fam\":\"R\",\"job\":\"long:{}:{}\",\"kind\":\"asm\",\"tgt\":\"L\",\"limit\":1001000,\"win\":4096,\"slack\":0,\"pk\":[{}],\"ev\":[{}]}}", kind, idx, pk.join(","), x.ev.join(","));
    pool::forget_on_panic(x);
    uflow::verif::net::reset();
    heap::finish();
    l
}
