//! Packet transfer between two endpoints over a simulated network; records one trace per
//! direction ("half trace") for the Link observer specification.
use crate::content::Registry;
use crate::peers::*;
use crate::rng::Rng;
use crate::wire::{self, Frame};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct NetParams {
    pub loss: f64,
    pub dup: f64,
    pub dmin: u64,
    pub dmax: u64,
    pub corrupt: f64,
    /// Kinds of frames which are lost altogether: 1 data, 2 sync, 4 acks, 8 everything else
    pub kill: u8,
    /// Preserve order (delay applies, but never overtakes)
    pub fifo: bool,
}

impl NetParams {
    pub fn fair(d: u64) -> Self { NetParams { loss: 0.0, dup: 0.0, dmin: d, dmax: d, corrupt: 0.0, kill: 0, fifo: true } }
}

#[derive(Clone, Debug)]
pub struct Traffic {
    pub burst_p: f64,
    pub burst: (u64, u64),
    pub modes: [u64; 4],
    /// (weight, min, max) of packet sizes
    pub sizes: Vec<(u64, usize, usize)>,
    pub chans: Vec<usize>,
    pub max_packets: usize,
    pub max_backlog: usize,
    pub zero_chan: Option<usize>,
}

#[derive(Clone)]
pub enum Level {
    Ep { c: EpCfg, s: EpCfg },
    #[cfg(feature = "hc")]
    Hc { a: hc::HcCfg, b: hc::HcCfg },
}

#[derive(Clone)]
pub struct LinkCfg {
    pub seed: u64,
    pub tag: &'static str,
    pub level: Level,
    pub nonces: (u32, u32),
    /// (end of phase in ms, parameters per direction of travel: [0] = from peer 0)
    pub phases: Vec<(u64, [NetParams; 2])>,
    pub fair_delay: u64,
    pub traffic: [Traffic; 2],
    pub traffic_end: u64,
    pub pre_sends: u64,
    pub step: (u64, u64),
    pub pause_p: f64,
    pub pause_max: u64,
    pub flush_p: f64,
    pub ideal: bool,
    pub fair_cap: u64,
    pub probe_idle: u64,
    pub probes: bool,
    pub bulk: usize,
    pub rate_probe: bool,
    /// Calls flush() this often within a millisecond
    pub sub: u64,
    /// Sync frames keep arriving (repeated by someone), each of which asks for an acknowledgement
    pub nag: bool,
    pub trickle: (u64, u64), // when only small packets are submitted, now and then
}

pub struct Pk { ch: usize, mode: usize, len: usize, deliv: u32 }

pub struct Half {
    pub reg: Registry,
    pub pk: Vec<Pk>,
    pub ev: Vec<String>,
    base: u32,
    pidmap: HashMap<u32, u32>,
    zero_wire: usize,
    zero_recv: usize,
    zero_used: bool,
    /// submitted but undelivered Reliable packets
    r_pending: usize,
    probe_from: u32,
    dirty: bool,
    last: (usize, i64, i64, i64),
    pub frames: u64,
}

impl Half {
    fn new(base: u32) -> Self {
        Half {
            reg: Default::default(), pk: Vec::new(), ev: Vec::new(), base, pidmap: HashMap::new(), zero_wire: 0, zero_recv: 0, zero_used: false,
            r_pending: 0, probe_from: 0, dirty: true, last: (usize::MAX, 0, 0, 0), frames: 0,
        }
    }
}

/// Datagram in flight
struct Fl { data: Vec<u8>, intact: bool }

pub struct Link {
    pub peers: [Box<dyn Peer>; 2],
    pub half: [Half; 2],
    /// in flight by direction of travel, ordered by (delivery time, serial)
    fly: [BTreeMap<(u64, u64), Fl>; 2],
    serial: u64,
    last_due: [u64; 2],
    pub now: u64,
    rng: Rng,
    salt: u32,
    rate_probe: bool,
    pub stats: Stats,
    pub manual: bool,
    pub pool: [Vec<Fl2>; 2],
    hs_seen: [bool; 2],
    /// RTT estimate (us) at the start of each peer's latest step
    q: [i64; 2],
}

/// Datagram waiting for an explicit decision (scripted network)
pub struct Fl2 { pub data: Vec<u8>, pub kind: char }

#[derive(Default, Clone)]
pub struct Stats { pub sent: u64, pub lost: u64, pub duped: u64, pub corrupted: u64, pub delivered: u64, pub steps: u64, pub kinds: [u64; 4] }

pub fn kind_of(d: &[u8]) -> char {
    match d.first() { Some(10) => 'D', Some(11) => 'Y', Some(12) => 'K', _ => 'H' }
}

fn ms(x: f64) -> i64 { if x.is_finite() { (x.min(2.0e9)).round() as i64 } else { -2 } }

impl Link {
    pub fn new(level: &Level, nonces: (u32, u32), seed: u64) -> Self {
        reset_env(seed ^ 0x1234);
        let peers: [Box<dyn Peer>; 2] = match level {
            Level::Ep { c, s } => {
                let (mut c, s) = ep_pair(c, s, nonces.0, nonces.1);
                let syn = c.take_sent();
                let mut l = Link::with([Box::new(c), Box::new(s)], nonces, seed);
                l.on_sent(0, syn, &NetParams::fair(1));
                return l;
            }
            #[cfg(feature = "hc")]
            Level::Hc { a, b } => [Box::new(hc::HcPeer::new(a, nonces.0, nonces.1)), Box::new(hc::HcPeer::new(b, nonces.1, nonces.0))],
        };
        Link::with(peers, nonces, seed)
    }

    fn with(peers: [Box<dyn Peer>; 2], nonces: (u32, u32), seed: u64) -> Self {
        Link {
            peers, half: [Half::new(nonces.0), Half::new(nonces.1)], fly: [BTreeMap::new(), BTreeMap::new()], serial: 0, last_due: [0, 0], now: 0,
            rng: Rng::new(seed ^ 0xabcdef), salt: seed as u32, rate_probe: false, stats: Stats::default(), manual: false, pool: [Vec::new(), Vec::new()], hs_seen: [false, false], q: [-1, -1],
        }
    }

    pub fn set_time(&mut self, ms: u64) { self.now = ms; set_ms(ms); }

    /// Submits a packet at peer `p`; returns its uid
    pub fn send(&mut self, p: usize, ch: usize, mode: usize, mut len: usize, zero_chan: Option<usize>) -> u32 {
        if !self.peers[p].accepts() { return 0; }
        let h = &mut self.half[p];
        if len == 0 {
            let ok = (mode == 3 && Some(ch) == zero_chan) || (mode != 3 && mode != 0 && zero_chan.is_none() && !h.zero_used);
            if !ok { len = 1; } else { h.zero_used = true; }
        }
        let (uid, data) = h.reg.add(self.salt, len);
        h.pk.push(Pk { ch, mode, len: data.len(), deliv: 0 });
        if mode == 3 { h.r_pending += 1; }
        self.peers[p].send(data, ch, MODES[mode]);
        let b = self.peers[p].sbs();
        let h = &mut self.half[p];
        h.ev.push(format!("{{\"e\":\"S\",\"u\":{},\"b\":{},\"t\":{}}}", uid, b, self.now));
        h.dirty = true;
        uid
    }

    pub fn flush(&mut self, p: usize, np: &NetParams) {
        self.peers[p].flush();
        let s = self.peers[p].take_sent();
        self.on_sent(p, s, np);
    }

    /// Observes (and hands to the network) datagrams emitted by peer `p`
    fn on_sent(&mut self, p: usize, frames: Vec<Vec<u8>>, np: &NetParams) {
        for d in frames {
            self.stats.sent += 1;
            self.record(p, &d);
            if self.manual {
                let kind = kind_of(&d);
                self.pool[p].push(Fl2 { data: d, kind });
                continue;
            }
            let kill = match d.first() { Some(10) => 1, Some(11) => 2, Some(12) => 4, _ => 8 };
            self.stats.kinds[match kill { 1 => 0, 2 => 1, 4 => 2, _ => 3 }] += 1;
            if np.kill & kill != 0 || self.rng.chance(np.loss) {
                self.stats.lost += 1;
                continue;
            }
            let n = if self.rng.chance(np.dup) { self.stats.duped += 1; 1 + self.rng.range(1, 2) } else { 1 };
            for _ in 0..n {
                let mut due = self.now + self.rng.range(np.dmin, np.dmax);
                if np.fifo { due = due.max(self.last_due[p]); self.last_due[p] = due; }
                let mut data = d.clone();
                let mut intact = true;
                if self.rng.chance(np.corrupt) {
                    self.stats.corrupted += 1;
                    intact = false;
                    let k = self.rng.range(1, 4);
                    let mut bits = Vec::new();
                    while bits.len() < k as usize {
                        let b = self.rng.below(data.len() as u64 * 8);
                        if !bits.contains(&b) { bits.push(b); data[b as usize / 8] ^= 1 << (b % 8); }
                    }
                }
                self.serial += 1;
                self.fly[p].insert((due, self.serial), Fl { data, intact });
            }
        }
    }

    fn record(&mut self, p: usize, d: &[u8]) {
        let t = self.now;
        let z = d.len();
        let q = self.q[p];
        let h = &mut self.half[p];
        match wire::decode(d) {
            Some(Frame::Data { seq, nonce, dgs }) => {
                h.frames += 1;
                let mut s = String::new();
                for g in &dgs {
                    let rel = (g.pid.wrapping_sub(h.base)) & 0xfffff;
                    let uid = match h.pidmap.get(&rel) {
                        Some(u) => *u,
                        None => {
                            let u = h.reg.guess_fragment(&g.data, g.last, &mut h.zero_wire);
                            h.pidmap.insert(rel, u);
                            u
                        }
                    };
                    let ok = uid > 0 && h.reg.fragment(uid, g.frag).map_or(false, |f| f == &g.data[..]) && h.reg.last_frag(uid) == g.last;
                    if !s.is_empty() { s.push(','); }
                    write!(s, "[{},{},{},{},{},{},{},{},{}]", uid, g.frag, g.last, rel, g.wl, g.cl, g.data.len(), ok as u8, g.ch).unwrap();
                }
                h.ev.push(format!("{{\"e\":\"D\",\"f\":{},\"n\":{},\"t\":{},\"z\":{},\"q\":{},\"d\":[{}]}}", seq.wrapping_sub(h.base) as i32, nonce as u8, t, z, q, s));
                h.dirty = true;
            }
            Some(Frame::Sync { frame, packet }) => {
                let f = frame.map_or(-1, |f| f.wrapping_sub(h.base) as i32 as i64);
                let np = packet.map_or(-1, |q| (q.wrapping_sub(h.base) & 0xfffff) as i64);
                h.ev.push(format!("{{\"e\":\"Y\",\"f\":{},\"p\":{},\"t\":{},\"z\":{},\"q\":{}}}", f, np, t, z, q));
            }
            Some(Frame::Acks { .. }) => {
                h.ev.push(format!("{{\"e\":\"K\",\"t\":{},\"z\":{},\"q\":{}}}", t, z, q));
            }
            Some(_) => {
                if self.hs_seen[p] { return; }
                self.hs_seen[p] = true;
            }
            None => {
                // An endpoint emitted something that is not a frame at all
                h.ev.push(format!("{{\"e\":\"G\",\"t\":{},\"z\":{}}}", t, z));
            }
        }
    }

    /// Moves datagrams due by now into the inbox of peer `p` and runs its step()
    pub fn step(&mut self, p: usize, np: &NetParams) {
        let o = 1 - p;
        let mut acks: Vec<Vec<u8>> = Vec::new();
        loop {
            let key = match self.fly[o].iter().next() { Some((k, _)) if k.0 <= self.now => *k, _ => break };
            let f = self.fly[o].remove(&key).unwrap();
            self.peers[p].deliver(&f.data);
            self.stats.delivered += 1;
            if f.intact && kind_of(&f.data) == 'K' { acks.push(f.data); }
        }
        self.step_with(p, acks, np);
    }

    pub fn step_with(&mut self, p: usize, acks: Vec<Vec<u8>>, np: &NetParams) {
        let o = 1 - p;
        self.stats.steps += 1;
        let was_active = self.peers[p].phase() == Phase::Active;
        let q = self.peers[p].rtt().map_or(-1, |r| ms(r * 1e6));
        let outs = self.peers[p].step();
        let sent = self.peers[p].take_sent();
        self.on_sent(p, sent, np);
        self.q[p] = q;
        let t = self.now;
        for a in acks {
            if let Some(Frame::Acks { fb, pb, groups }) = wire::decode(&a) {
                let h = &mut self.half[p];
                let mut s = String::new();
                for g in &groups {
                    if !s.is_empty() { s.push(','); }
                    let offs: Vec<String> = (0..32).filter(|i| g.bits >> i & 1 == 1).map(|i| i.to_string()).collect();
                    write!(s, "[{},[{}],{}]", g.base.wrapping_sub(h.base) as i32, offs.join(","), g.nonce as u8).unwrap();
                }
                if was_active {
                    h.ev.push(format!("{{\"e\":\"A\",\"fb\":{},\"pb\":{},\"g\":[{}],\"t\":{}}}", fb.wrapping_sub(h.base) as i32, (pb.wrapping_sub(h.base) & 0xfffff), s, t));
                    h.dirty = true;
                }
            }
        }
        // State after the step
        let b = self.peers[p].sbs();
        let r = self.peers[p].rtt().map_or(-1, |r| ms(r * 1e6));
        let hs = match self.peers[p].phase() { Phase::Pending => 0, Phase::Active => 1, Phase::Closed => 2 };
        let rate = if self.rate_probe { self.peers[p].rate().map_or(-1, ms) } else { -1 };
        // Every step matters to the rate observer
        let more = if self.rate_probe {
            let z = self.peers[p].rtt().map_or(0, f64::to_bits);
            format!(",\"qr\":[{},{}],\"m\":{}", (z >> 32) as u32 as i32, z as u32 as i32, self.peers[p].rto().map_or(-1, |m| m.min(2_000_000_000) as i64))
        } else { String::new() };
        let h = &mut self.half[p];
        if h.dirty || self.rate_probe || h.last != (b, r, hs, rate) {
            h.ev.push(format!("{{\"e\":\"X\",\"t\":{},\"b\":{},\"r\":{},\"h\":{},\"x\":{}{}}}", t, b, r, hs, rate, more));
            h.last = (b, r, hs, rate);
            h.dirty = false;
        }
        for e in outs {
            match e {
                Out::Recv(d) => {
                    let h = &mut self.half[o];
                    let u = h.reg.identify(&d, &mut h.zero_recv);
                    if u > 0 {
                        let pk = &mut h.pk[u as usize - 1];
                        pk.deliv += 1;
                        if pk.mode == 3 && pk.deliv == 1 { h.r_pending -= 1; }
                    }
                    h.ev.push(format!("{{\"e\":\"R\",\"u\":{},\"t\":{}}}", u, t));
                }
                Out::Connect => (),
                Out::Disconnect | Out::Error(_) => {
                    for h in self.half.iter_mut() { h.ev.push(format!("{{\"e\":\"C\",\"p\":{},\"t\":{}}}", p, t)); }
                }
            }
        }
    }

    fn quiet(&self) -> bool {
        (0..2).all(|p| self.half[p].r_pending == 0 && self.peers[p].sbs() == 0 && self.peers[p].phase() != Phase::Pending)
    }

    fn closed(&self) -> bool { (0..2).any(|p| self.peers[p].phase() == Phase::Closed) }

    fn next_due(&self) -> Option<u64> {
        (0..2).filter_map(|p| self.fly[p].keys().next().map(|k| k.0)).min()
    }

    fn traffic(&mut self, p: usize, tr: &Traffic) {
        if self.half[p].pk.len() >= tr.max_packets || self.peers[p].sbs() > tr.max_backlog { return; }
        if !self.rng.chance(tr.burst_p) { return; }
        let n = self.rng.range(tr.burst.0, tr.burst.1);
        for _ in 0..n {
            if self.half[p].pk.len() >= tr.max_packets || !self.peers[p].accepts() { break; }
            let w: u64 = tr.modes.iter().sum();
            let mut k = self.rng.below(w);
            let mut mode = 0;
            while k >= tr.modes[mode] { k -= tr.modes[mode]; mode += 1; }
            let w: u64 = tr.sizes.iter().map(|s| s.0).sum();
            let mut k = self.rng.below(w);
            let mut i = 0;
            while k >= tr.sizes[i].0 { k -= tr.sizes[i].0; i += 1; }
            let len = self.rng.range(tr.sizes[i].1 as u64, tr.sizes[i].2 as u64) as usize;
            let ch = *self.rng.pick(&tr.chans);
            self.send(p, ch, mode, len, tr.zero_chan);
        }
    }

    /// Runs with a loss-free network until nothing is pending; returns the time taken, or None
    fn settle(&mut self, cfg: &LinkCfg, cap: u64) -> Option<u64> {
        let np = NetParams::fair(cfg.fair_delay);
        let t0 = self.now;
        let lo = cfg.step.0.clamp(5, 20);
        let mut quiet_since = None;
        let ev0 = self.half[0].ev.len() + self.half[1].ev.len();
        loop {
            let dt = if self.now - t0 < 20_000 { self.rng.range(lo, lo + 20) } else { self.rng.range(20, 60) };
            let t = self.now + dt;
            self.set_time(t);
            let first = self.rng.below(2) as usize;
            self.step(first, &np);
            self.step(1 - first, &np);
            if self.closed() { return None; }
            if self.quiet() {
                let q = *quiet_since.get_or_insert(self.now);
                if self.now - q > 4 * cfg.fair_delay + 200 { return Some(q - t0); }
            } else {
                quiet_since = None;
            }
            // Busy for ever: several times what any transfer here needs
            if self.now - t0 > cap || self.half[0].ev.len() + self.half[1].ev.len() > ev0 + 40_000 { return None; }
        }
    }

    fn idle(&mut self, cfg: &LinkCfg, dur: u64) {
        let np = NetParams::fair(cfg.fair_delay);
        let end = self.now + dur;
        while self.now < end {
            let mut t = self.now + self.rng.range(50, 250);
            if let Some(d) = self.next_due() { t = t.min(d.max(self.now + 1)); }
            self.set_time(t.min(end));
            self.step(0, &np);
            self.step(1, &np);
        }
    }

    /// Whole scenario: faults, recovery, optional idle time and probes
    pub fn run(&mut self, cfg: &LinkCfg) -> Summary {
        self.rate_probe = cfg.rate_probe;
        let mut sum = Summary::default();
        if let Level::Ep { .. } = cfg.level {
            // Packets submitted while the client is connecting
            for _ in 0..cfg.pre_sends { self.traffic(0, &Traffic { burst_p: 1.0, ..cfg.traffic[0].clone() }); }
        }
        let mut ph = 0;
        while ph < cfg.phases.len() {
            let (end, np) = (cfg.phases[ph].0, cfg.phases[ph].1.clone());
            if self.now >= end { ph += 1; continue; }
            let mut dt = self.rng.range(cfg.step.0, cfg.step.1);
            if cfg.pause_p > 0.0 && self.rng.chance(cfg.pause_p) { dt += self.rng.below(cfg.pause_max); }
            let t = self.now + dt;
            self.set_time(t);
            let first = self.rng.below(2) as usize;
            for p in [first, 1 - first] {
                let half_time = self.rng.below(2) == 0;
                let may_send = self.now < cfg.traffic_end;
                if cfg.nag { self.peers[p].deliver(&wire::encode(&Frame::Sync { frame: None, packet: None })); }
                let little = Traffic { burst_p: 0.3, burst: (1, 1), sizes: vec![(1, 8, 60)], ..cfg.traffic[p].clone() };
                let tr = if self.now >= cfg.trickle.0 && self.now < cfg.trickle.1 { &little } else { &cfg.traffic[p] };
                if may_send && half_time { self.traffic(p, tr); }
                if self.rng.chance(cfg.flush_p) { self.flush(p, &np[p]); }
                if cfg.pause_p == 0.0 || !self.rng.chance(0.2) { self.step(p, &np[p]); }
                if may_send && !half_time { self.traffic(p, tr); }
                if self.rng.chance(cfg.flush_p) { self.flush(p, &np[p]); }
            }
            for k in 1..cfg.sub {
                set_ns(self.now * 1_000_000 + k * (900_000 / cfg.sub));
                for p in 0..2 { self.flush(p, &np[p]); }
            }
            if self.closed() { break; }
        }
        self.complete(cfg, &mut sum);
        sum
    }

    /// Recovery without faults, then probes
    pub fn finish(&mut self, cfg: &LinkCfg) -> Summary {
        let mut sum = Summary::default();
        self.complete(cfg, &mut sum);
        sum
    }

    fn complete(&mut self, cfg: &LinkCfg, sum: &mut Summary) {
        sum.fault_end = self.now;
        if !self.closed() {
            // In-flight frames of the faulty network may still arrive late; they count as faults
            match self.settle(cfg, cfg.fair_cap) { Some(t) => sum.recover = t as i64, None => sum.recover = -1 }
        }
        if cfg.probes && sum.recover >= 0 {
            self.idle(cfg, cfg.probe_idle);
            for p in 0..2 { self.half[p].probe_from = self.half[p].pk.len() as u32 + 1; }
            for mode in [1usize, 0, 0, 0, 2, 0, 3] {
                for p in 0..2 {
                    let len = self.rng.range(8, if mode == 0 { 40 } else { 400 }) as usize;
                    let ch = *self.rng.pick(&cfg.traffic[p].chans);
                    self.send(p, ch, mode, len, None);
                }
                if self.settle(cfg, cfg.fair_cap).is_none() { sum.probe_ok = -1; }
                let d = self.rng.range(30_000, 60_000);
                self.idle(cfg, d);
            }
            if cfg.bulk > 0 && sum.probe_ok >= 0 {
                let t0 = self.now;
                for p in 0..2 {
                    if cfg.traffic[p].max_packets == 0 { continue; }
                    let mut left = cfg.bulk;
                    let big = cfg.traffic[p].sizes.iter().map(|s| s.2).max().unwrap().max(200);
                    while left > 0 {
                        let n = left.min(big);
                        let ch = *self.rng.pick(&cfg.traffic[p].chans);
                        self.send(p, ch, 3, n.max(8), None);
                        left -= n;
                    }
                }
                match self.settle(cfg, cfg.fair_cap) { Some(_) => sum.probe_ok = (self.now - t0) as i64, None => sum.probe_ok = -1 }
            }
        }
        for p in 0..2 {
            let b = self.peers[p].sbs();
            let line = format!("{{\"e\":\"E\",\"t\":{},\"b\":{},\"fair\":{}}}", self.now, b, (sum.recover != -2) as u8);
            self.half[p].ev.push(line);
        }
    }

    /// uid of the packet which peer `p` sent as `pid`
    pub fn uid_of(&self, p: usize, pid: u32) -> u32 {
        let h = &self.half[p];
        h.pidmap.get(&(pid.wrapping_sub(h.base) & 0xfffff)).copied().unwrap_or(0)
    }

    /// One JSON line per direction
    pub fn lines(&self, fam: &str, cfg_fields: &dyn Fn(usize) -> String) -> Vec<String> {
        (0..2).map(|p| {
            let h = &self.half[p];
            let pk: Vec<String> = h.pk.iter().map(|k| format!("[{},{},{}]", k.ch, k.mode, k.len)).collect();
            format!("{{\"fam\":\"{}\",\"dir\":{},{},\"probe\":{},\"pk\":[{}],\"ev\":[{}]}}", fam, p, cfg_fields(p), h.probe_from, pk.join(","), h.ev.join(","))
        }).collect()
    }
}

#[derive(Debug, Clone)]
pub struct Summary { pub fault_end: u64, pub recover: i64, pub probe_ok: i64 }
impl Default for Summary { fn default() -> Self { Summary { fault_end: 0, recover: -2, probe_ok: 0 } } }

pub fn fields(cfg: &LinkCfg, p: usize) -> String {
    let (rate, alloc, win, fwin, lvl) = match &cfg.level {
        Level::Ep { c, s } => {
            let (me, other) = if p == 0 { (c, s) } else { (s, c) };
            (me.send_rate.min(other.recv_rate), other.alloc, 4096, 4096, 0)
        }
        #[cfg(feature = "hc")]
        Level::Hc { a, b } => {
            let me = if p == 0 { a } else { b };
            (me.tx_rate as usize, me.tx_alloc, me.packet_win, me.frame_win, 1)
        }
    };
    format!("\"seed\":{},\"tag\":\"{}\",\"lvl\":{},\"rate\":{},\"alloc\":{},\"win\":{},\"fwin\":{},\"ideal\":{},\"sub\":{}",
        cfg.seed & 0x7fffffff, cfg.tag, lvl, rate.min(2_000_000_000), alloc.min(2_000_000_000), win, fwin, cfg.ideal as u8, (cfg.sub > 0) as u8)
}
