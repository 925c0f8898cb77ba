//! Seeded scenarios over a server, clients and adversarial addresses.
use crate::link::NetParams;
use crate::peers::*;
use crate::rng::{mix, Rng};
use crate::wire::{self, Dg, Frame};
use crate::world::*;
use std::collections::BTreeMap;

/// A scripted peer which speaks the protocol from its own address
#[derive(Default, Clone)]
struct Raw {
    a: usize,
    nonce: u32,
    sn: Option<u32>,
    old: Vec<u32>,
    seq: u32,
    pid: u32,
    up: bool,
    last_sent: u64,
    answers_disc: bool,
}

pub struct EpRun {
    pub w: World,
    rng: Rng,
    fly: BTreeMap<(u64, u64), Pkt>,
    serial: u64,
    last_due: BTreeMap<(usize, usize), u64>,
    np: [NetParams; 2], // to server, from server
    hist: Vec<Pkt>,
    raws: Vec<Raw>,
    cut: Vec<bool>, // addresses whose traffic is lost at present
    shy: BTreeMap<(bool, usize, u8), u64>, // frames of a kind still to be lost, by destination and address
    shy_rng: Option<Rng>,
}

fn is_hs(d: &[u8]) -> bool { matches!(d.first(), Some(0..=3)) }

impl EpRun {
    fn route(&mut self, out: Vec<Pkt>) {
        for p in out {
            let to_srv = p.to == self.w.saddr;
            let np = self.np[if to_srv { 0 } else { 1 }].clone();
            let peer = if to_srv { self.w.index(&p.from) } else { self.w.index(&p.to) };
            if is_hs(&p.data) && self.hist.len() < 400 && peer.map_or(false, |a| self.w.cls[a - 1].is_some()) { self.hist.push(p.clone()); }
            let kill = match p.data.first() { Some(10) => 1, Some(11) => 2, Some(12) => 4, Some(0) | Some(2) => 8, Some(1) | Some(3) => 16, Some(4) => 32, Some(5) => 64, _ => 128 };
            if let (Some(a), Some(k @ (1 | 2 | 5))) = (peer, p.data.first().copied()) {
                // The first few confirmations of an exchange are lost, the repetitions are not
                if let Some(r) = self.shy_rng.as_mut() {
                    let e = self.shy.entry((to_srv, a, k)).or_insert_with(|| r.below(5));
                    if *e > 0 { *e -= 1; continue; }
                }
            }
            if np.kill & kill != 0 || self.rng.chance(np.loss) || peer.map_or(false, |a| self.cut[a - 1]) { continue; }
            let n = if self.rng.chance(np.dup) { 1 + self.rng.range(1, 2) } else { 1 };
            for _ in 0..n {
                let mut due = self.w.now + self.rng.range(np.dmin, np.dmax);
                if np.fifo {
                    let k = (to_srv as usize, peer.unwrap_or(0));
                    let l = self.last_due.entry(k).or_insert(0);
                    due = due.max(*l);
                    *l = due;
                }
                let mut q = p.clone();
                if self.rng.chance(np.corrupt) {
                    for _ in 0..self.rng.range(1, 3) {
                        let b = self.rng.below(q.data.len() as u64 * 8) as usize;
                        q.data[b / 8] ^= 1 << (b % 8);
                    }
                }
                self.serial += 1;
                self.fly.insert((due, self.serial), q);
            }
        }
    }

    fn inject(&mut self, from: usize, data: Vec<u8>) {
        let p = Pkt { from: self.w.addrs[from - 1], to: self.w.saddr, data };
        self.w.staged_srv.push(p);
    }

    /// Spoofed: from the server to client `a`
    fn inject_cl(&mut self, a: usize, data: Vec<u8>) {
        let p = Pkt { from: self.w.saddr, to: self.w.addrs[a - 1], data };
        self.w.staged_cl[a - 1].push(p);
    }

    fn deliver_due(&mut self) {
        loop {
            let key = match self.fly.iter().next() { Some((k, _)) if k.0 <= self.w.now => *k, _ => break };
            let p = self.fly.remove(&key).unwrap();
            if p.to == self.w.saddr {
                self.w.staged_srv.push(p);
            } else if let Some(a) = self.w.index(&p.to) {
                if self.w.cls[a - 1].is_some() { self.w.staged_cl[a - 1].push(p); } else { self.raw_in(a, &p.data); }
            }
        }
    }

    fn raw_in(&mut self, a: usize, d: &[u8]) {
        let i = match self.raws.iter().position(|r| r.a == a) { Some(i) => i, None => return };
        match wire::decode(d) {
            Some(Frame::SynAck { nonce_ack, nonce, .. }) => {
                let r = &mut self.raws[i];
                if nonce_ack == r.nonce {
                    if r.sn != Some(nonce) { if let Some(o) = r.sn { r.old.push(o); } }
                    r.sn = Some(nonce);
                }
            }
            Some(Frame::Disc) => {
                self.raws[i].up = false;
                if self.raws[i].answers_disc { self.inject(a, wire::encode(&Frame::DiscAck)); }
            }
            _ => (),
        }
    }

    fn raw_syn(&mut self, i: usize, scfg: &EpCfg) {
        let (a, fresh) = (self.raws[i].a, self.rng.chance(0.6) || self.raws[i].nonce == 0);
        if fresh {
            let n = self.rng.u32();
            let r = &mut self.raws[i];
            if let Some(o) = r.sn { r.old.push(o); }
            r.sn = None;
            r.nonce = n;
            r.up = false;
            r.seq = n;
            r.pid = n & 0xfffff;
            r.answers_disc = self.rng.chance(0.5);
        }
        let n = self.raws[i].nonce;
        let version = if self.rng.chance(0.12) { *self.rng.pick(&[0u8, 1, 2, 4, 255]) } else { 3 };
        // Around the configured limits
        let alloc = match self.rng.below(6) { 0 => scfg.psize as u32 - 1, 1 => scfg.psize as u32, 2 => scfg.psize as u32 + 1, _ => 10_000_000 };
        let psize = match self.rng.below(6) { 0 => scfg.alloc as u32 + 1, 1 => scfg.alloc as u32, 2 => scfg.alloc as u32 - 1, _ => 1 };
        let mut d = wire::encode(&Frame::Syn { version, nonce: n, rate: *self.rng.pick(&[100_000u32, 0, u32::MAX]), psize, alloc });
        if self.rng.chance(0.2) {
            // Undersized, but otherwise valid
            let len = *self.rng.pick(&[22usize, 23, 30, 500, 1467, 1470, 1471]);
            d.truncate(len - 4);
            d = wire::seal(d);
        } else if self.rng.chance(0.05) {
            d.push(0);
        }
        self.inject(a, d);
    }

    fn raw_tick(&mut self, scfg: &EpCfg, rate: f64) {
        for i in 0..self.raws.len() {
            if !self.rng.chance(rate) { continue; }
            let r = self.raws[i].clone();
            let a = r.a;
            match self.rng.below(14) {
                0..=2 => self.raw_syn(i, scfg),
                3..=5 => if let Some(sn) = r.sn {
                    self.inject(a, wire::encode(&Frame::Ack { nonce_ack: sn }));
                    self.raws[i].up = true;
                } else { self.raw_syn(i, scfg) },
                6 => {
                    // Stale, guessed or confused nonces
                    let n = match self.rng.below(6) {
                        0 if !r.old.is_empty() => *self.rng.pick(&r.old),
                        1 => r.nonce,
                        2 => r.sn.unwrap_or(5).wrapping_add(1),
                        3 => 0,
                        4 => r.sn.map_or(7, |s| s ^ 1 << 31),
                        _ => self.rng.u32(),
                    };
                    if Some(n) != r.sn { self.inject(a, wire::encode(&Frame::Ack { nonce_ack: n })); }
                }
                7..=8 if r.up => {
                    let len = self.rng.range(8, 60) as usize;
                    let d = Dg { pid: r.pid, ch: 0, wl: 0, cl: 0, frag: 0, last: 0, data: vec![0xcc; len] };
                    let nonce = self.rng.chance(0.5);
                    self.inject(a, wire::encode(&Frame::Data { seq: r.seq, nonce, dgs: vec![d] }));
                    self.raws[i].seq = r.seq.wrapping_add(1);
                    self.raws[i].pid = (r.pid + 1) & 0xfffff;
                }
                7..=9 => self.inject(a, wire::encode(&Frame::Sync { frame: None, packet: None })),
                10 => { self.inject(a, wire::encode(&Frame::Disc)); }
                11 => self.inject(a, wire::encode(&Frame::DiscAck)),
                12 => { let f = Frame::Err { nonce_ack: r.sn.unwrap_or(3), code: self.rng.below(3) as u8 }; self.inject(a, wire::encode(&f)) }
                _ => {
                    let n = self.rng.below(1500) as usize;
                    let mut v: Vec<u8> = (0..n).map(|_| self.rng.u64() as u8).collect();
                    if self.rng.chance(0.5) && n > 5 { v[0] = self.rng.below(13) as u8; let l = v.len(); v.truncate(l - 4); v = wire::seal(v); }
                    self.inject(a, v);
                }
            }
        }
    }

    /// Addresses which ask for connections, but never confirm them; each prefers one kind of frame
    fn amplify(&mut self, scfg: &EpCfg, profiles: &[(u64, u64)], t: u64, calm: bool) {
        for i in 0..self.raws.len() {
            let (kind, n) = profiles[i % profiles.len()];
            let a = self.raws[i].a;
            if self.raws[i].nonce == 0 && kind != 9 {
                let nonce = self.rng.u32() | 1;
                self.raws[i].nonce = nonce;
                let v = if self.rng.chance(0.1) { 2 } else { 3 };
                let d = wire::encode(&Frame::Syn { version: v, nonce, rate: 100_000, psize: 1, alloc: scfg.psize as u32 });
                self.inject(a, d);
            }
            // Silence afterwards (kinds 0 and 1), or no end of small frames
            let again = t.saturating_sub(self.raws[i].last_sent) > 10_000;
            if kind <= 1 || (calm && !again) { continue; }
            self.raws[i].last_sent = t;
            for _ in 0..n {
                let bad = self.rng.u32();
                let own = self.raws[i].nonce;
                let d = match kind {
                    2 => wire::encode(&Frame::Ack { nonce_ack: if Some(bad) == self.raws[i].sn { bad ^ 1 } else { bad } }),
                    3 => wire::encode(&Frame::Disc),
                    4 => wire::encode(&Frame::DiscAck),
                    5 => wire::encode(&Frame::Err { nonce_ack: own, code: (bad % 3) as u8 }),
                    6 => wire::encode(&Frame::Sync { frame: None, packet: None }),
                    7 => { let d = Dg { pid: own & 0xfffff, ch: 0, wl: 0, cl: 0, frag: 0, last: 0, data: vec![1, 2] }; wire::encode(&Frame::Data { seq: own, nonce: false, dgs: vec![d] }) }
                    _ => {
                        // An undersized request
                        let mut d = wire::encode(&Frame::Syn { version: 3, nonce: if bad & 1 == 0 { own } else { bad }, rate: 100_000, psize: 1, alloc: scfg.psize as u32 });
                        d.truncate(*self.rng.pick(&[22usize, 26, 30, 60]) - 4);
                        wire::seal(d)
                    }
                };
                self.inject(a, d);
            }
        }
    }

    /// Off-path attacker: handshake frames with forged addresses, or copies of old ones
    fn forge(&mut self, scfg: &EpCfg) {
        let real: Vec<usize> = (1..=self.w.na()).filter(|a| self.w.cls[a - 1].is_some()).collect();
        if real.is_empty() { return; }
        let a = *self.rng.pick(&real);
        match self.rng.below(9) {
            0 => { let f = Frame::Syn { version: *self.rng.pick(&[3u8, 3, 2]), nonce: self.rng.u32(), rate: 1_000_000, psize: 1000.min(scfg.alloc) as u32, alloc: 100_000_000 }; self.inject(a, wire::encode(&f)) }
            1 => { let n = self.rng.u32(); self.inject(a, wire::encode(&Frame::Ack { nonce_ack: n })) }
            2 => { let n = self.w.cn[a - 1].unwrap_or(0).wrapping_add(1); self.inject(a, wire::encode(&Frame::Ack { nonce_ack: n })) }
            3 => { let f = Frame::SynAck { nonce_ack: self.rng.u32(), nonce: self.rng.u32(), rate: 1_000_000, psize: 1000, alloc: 100_000 }; self.inject_cl(a, wire::encode(&f)) }
            4 => { let f = Frame::Err { nonce_ack: self.rng.u32(), code: self.rng.below(3) as u8 }; self.inject_cl(a, wire::encode(&f)) }
            5 => { let f = Frame::Ack { nonce_ack: self.rng.u32() }; self.inject_cl(a, wire::encode(&f)) }
            _ => if !self.hist.is_empty() {
                let p = self.rng.pick(&self.hist).clone();
                if p.to == self.w.saddr { self.w.staged_srv.push(p); } else if let Some(b) = self.w.index(&p.to) { self.w.staged_cl[b - 1].push(p); }
            },
        }
    }

    fn step_srv(&mut self) { let o = self.w.srv_step(); self.route(o); }
    fn step_cl(&mut self, a: usize) { let o = self.w.cl_step(a); self.route(o); }

    fn add_client(&mut self, cfg: EpCfg) {
        let (_, o) = self.w.connect(cfg, None);
        self.cut.push(false);
        self.route(o);
    }
}

/// A few packets right before disconnect(); the other side may not look at them until the request has arrived, too
fn last_words(r: &mut Rng, x: &mut EpRun, d: usize, a: usize, t: u64, busy: &mut (u64, Vec<u64>)) {
    if !r.chance(0.6) { return; }
    let light = r.chance(0.6);
    for _ in 0..r.range(1, 6) {
        let backlog = if d == 1 { x.w.cls[a - 1].as_ref().unwrap().c.as_ref().unwrap().send_buffer_size() } else { x.w.srv_sbs(a) };
        if backlog < 60_000 && x.w.reg.data.len() < 600 { x.w.send(d, a, r.below(4) as usize, if light { 1 } else { r.range(1, 3) as usize }, *r.pick(&[8usize, 40, 100])); }
    }
    let until = t + r.range(100, 2000);
    if d == 1 { busy.0 = busy.0.max(until) } else { busy.1[a % 64] = until }
}

pub fn run(kind: &str, idx: u64, seed: u64) -> (String, String) {
    let s = mix(mix(seed, idx), kind.bytes().fold(11u64, |a, b| a.wrapping_mul(137).wrapping_add(b as u64)));
    let mut rr = Rng::new(s);
    let r = &mut rr;
    let job = format!("ep:{}:{}", kind, idx);
    let cap = kind == "cap";
    let ka = kind == "ka" || kind == "kafloor";
    let time = kind == "time";
    let disc = kind == "disc";
    // Ideal network, every connection ended by one disconnect()
    let bye = kind == "bye";
    // Addresses which never complete a handshake
    let amp = kind == "amp";
    let mut sep = EpCfg { timeout_ms: *r.pick(&[3000u64, 8000, 20_000]), psize: *r.pick(&[1000usize, 5000, 20_000]), alloc: *r.pick(&[20_000usize, 50_000]), ..EpCfg::default() };
    sep.keepalive = r.chance(0.7);
    sep.keepalive_ms = *r.pick(&[1000u64, 2500, 5000]);
    if disc || bye { sep.timeout_ms = 20_000; }
    // Able to send more than it is willing to receive
    if r.chance(0.15) { sep.alloc = *r.pick(&[1000usize, 3000]); sep.psize = *r.pick(&[5000usize, 20_000]); }
    let mut ideal = if bye { 3 } else { 0 };
    let kcfg = |r: &mut Rng| -> (u64, u64) {
        if kind == "kafloor" {
            // Keepalive interval below the timeout, but the timeout below the floor of 2 s
            (*r.pick(&[500u64, 1000]), *r.pick(&[1500u64, 1900]))
        } else {
            let k = *r.pick(&[500u64, 1500, 2500, 5000, 9000]);
            (k, k.max(2000) + *r.pick(&[700u64, 1000, 5000]))
        }
    };
    let mut both = (true, true);
    if ka {
        ideal = if kind == "kafloor" { 2 } else { 1 };
        let (k, t) = kcfg(r);
        sep.keepalive = true;
        sep.keepalive_ms = k;
        sep.timeout_ms = t;
        both = *r.pick(&[(true, true), (true, false), (false, true)]);
        sep.keepalive = both.0;
    }
    let lim = if cap { r.range(1, 5) as usize } else { *r.pick(&[32usize, 32, 3]) };
    let scfg = SrvCfg { max_total: if cap { lim + r.below(4) as usize } else { *r.pick(&[4096usize, 6]) }, max_active: lim, errs: r.chance(0.7), ep: sep.clone() };
    let dmax_base = *r.pick(&[0u64, 1, 20, 100]);
    let mut x = EpRun {
        w: World::new(scfg, s), rng: Rng::new(s ^ 0x77), fly: BTreeMap::new(), serial: 0, last_due: BTreeMap::new(),
        np: [NetParams::fair(dmax_base), NetParams::fair(dmax_base)], hist: Vec::new(), raws: Vec::new(), cut: Vec::new(),
        shy: BTreeMap::new(), shy_rng: None,
    };
    if matches!(kind, "mix" | "disc" | "time") && mix(s, 0x5a7) % 3 == 0 { x.shy_rng = Some(Rng::new(mix(s, 0x5a8))); }
    let mut extra = String::from("\"ideal\":0");
    let res = crate::pool::guard(|| {
        let nraw = if ka || bye { 0 } else if amp { r.range(2, 6) } else if cap { r.range(1, 6) } else { r.below(3) };
        for _ in 0..nraw { let a = x.w.add_raw(); x.cut.push(false); x.raws.push(Raw { a, ..Default::default() }); }
        let maxcl = if ka { 2 } else if amp { 0 } else if bye { r.range(1, 4) as usize } else if cap { 10 } else { r.range(1, 6) as usize };
        let faulty = !ka && !bye && r.chance(0.7);
        let step = if ka { (5, 50) } else { *r.pick(&[(1u64, 20u64), (10, 60), (20, 20), (50, 400)]) };
        let fault_end = if ka { 200 } else if amp { 2500 } else { r.range(3000, if time || cap { 60_000 } else { 20_000 }) };
        let raw_rate = if amp { 0.0 } else if cap { *r.pick(&[0.05, 0.3]) } else { *r.pick(&[0.0, 0.02, 0.1]) };
        let forge_rate = if ka || bye || amp { 0.0 } else { *r.pick(&[0.0, 0.02, 0.2]) };
        let op_rate = if ka { 0.0 } else { *r.pick(&[0.01, 0.05, 0.2]) };
        let mut next_phase = 0;
        let mut gap = [0u64; 2];
        let mut next_cl = 0;
        let mut ncl = 0;
        let settle = if amp { 180_000 } else if ka { 60_000 + r.below(60_000) } else { 50_000 };
        let end = fault_end + settle;
        let kinds = r.range(1, 3);
        let skip_p = *r.pick(&[0.0, 0.3]);
        let poll: Vec<u64> = (0..16).map(|_| *r.pick(&[1u64, 1, 1, 4])).collect();
        let mut pauses: Vec<u64> = vec![0; 64];
        let delay_max = *r.pick(&[0u64, 30, 300]);
        let mut seen_delay = dmax_base;
        let srv_poll = if bye || disc { *r.pick(&[1u64, 1, 3, 8]) } else { 1 };
        let mut left = vec![false; 64];
        // Until when an application is too busy to call step(): server, clients
        let mut busy = (0u64, vec![0u64; 64]);
        let profiles: Vec<(u64, u64)> = (0..8).map(|_| (r.below(10), r.range(1, 9))).collect();
        while x.w.now < end {
            let calm = x.w.now >= fault_end;
            let st = if amp { if calm { (500, 2500) } else { (20, 100) } } else if calm && !ka { (10, 40) } else { step };
            let dt = r.range(st.0, st.1).max(if ka && x.w.now > 5000 { 20 } else { 1 });
            let t = x.w.now + dt;
            x.w.set_time(t);
            if calm {
                x.np = [NetParams::fair(dmax_base), NetParams::fair(dmax_base)];
                for c in x.cut.iter_mut() { *c = false; }
            } else if faulty && t >= next_phase {
                next_phase = t + r.range(200, 8000);
                for k in 0..2 {
                    let mut n = NetParams::fair(dmax_base);
                    n.fifo = r.chance(0.3);
                    n.dmax += if r.chance(0.5) { delay_max } else { 0 };
                    seen_delay = seen_delay.max(n.dmax);
                    match r.below(7) { 0 => n.loss = 0.1, 1 => n.loss = 0.4, 2 => n.loss = 0.8, 3 => n.loss = 1.0, 4 => n.kill = (r.u32() & 0x7f) as u8, _ => () }
                    n.dup = *r.pick(&[0.0, 0.0, 0.3]);
                    n.corrupt = *r.pick(&[0.0, 0.0, 0.1]);
                    x.np[k] = n;
                }
                for c in x.cut.iter_mut() { *c = r.chance(0.12); }
            }
            x.deliver_due();
            // New connections
            if ncl < maxcl && t >= next_cl && (t < fault_end || ncl == 0) {
                ncl += 1;
                next_cl = t + r.range(0, if cap { 6000 } else { 3000 });
                let mut c = EpCfg { timeout_ms: *r.pick(&[3000u64, 8000, 20_000]), psize: *r.pick(&[1000usize, 5000, 20_000]), alloc: *r.pick(&[20_000usize, 50_000]), ..EpCfg::default() };
                if c.psize > sep.alloc && r.chance(0.7) { c.psize = sep.alloc; }
                c.keepalive = r.chance(0.7);
                c.keepalive_ms = *r.pick(&[1000u64, 2500, 5000]);
                if disc || bye { c.timeout_ms = 20_000; }
                if ka { c.keepalive = both.1; c.keepalive_ms = sep.keepalive_ms; c.timeout_ms = sep.timeout_ms; c.psize = 1000; c.alloc = 50_000; }
                if r.chance(if ka || bye { 0.0 } else { 0.25 }) {
                    // Around the limits of compatibility
                    match r.below(7) { 6 => c.psize = sep.alloc + *r.pick(&[1usize, 500, 4000]), 0 => c.alloc = (sep.psize - 1).max(1), 1 => c.alloc = sep.psize, 2 => c.psize = sep.alloc + 1, 3 => c.psize = sep.alloc, 4 => c.recv_rate = 1 << 40, _ => c.alloc = 1 << 36 }
                }
                x.add_client(c);
            }
            if x.w.na() > 60 { break; }
            if amp { x.amplify(&sep, &profiles, t, calm); }
            if t < fault_end {
                x.raw_tick(&sep, raw_rate);
                if x.rng.chance(forge_rate) { x.forge(&sep); }
            }
            // API calls
            let reals: Vec<usize> = (1..=x.w.na()).filter(|a| x.w.cls[a - 1].as_ref().map_or(false, |c| c.c.is_some())).collect();
            if t < fault_end || (ka && t < fault_end + 2000) {
                for &a in &reals {
                    let burst = if disc || bye { r.range(1, 12) } else { kinds };
                    if bye && left[a] { continue; }
                    let send_p = if ka { *r.pick(&[0.02, 0.0]) } else if disc || bye { 0.15 } else { op_rate };
                    if r.chance(send_p) {
                        let d = r.below(2) as usize;
                        for _ in 0..burst {
                            let len = *r.pick(&[8usize, 40, 300, 1448, 1449, 4000, 0]);
                            let mode = if r.chance(0.6) { 3 } else { r.below(4) as usize };
                            let backlog = if d == 1 { x.w.cls[a - 1].as_ref().unwrap().c.as_ref().unwrap().send_buffer_size() } else { x.w.srv_sbs(a) };
                            if backlog < 60_000 && x.w.reg.data.len() < 600 { x.w.send(d, a, r.below(4) as usize, mode, len); }
                        }
                    }
                    if bye && r.chance(0.05) && x.w.connected[a - 1] {
                        left[a] = true;
                        let d = r.below(2) as usize;
                        if r.chance(0.4) { x.w.send(d, a, r.below(4) as usize, 3, 0); }
                        last_words(r, &mut x, d, a, t, &mut busy);
                        x.w.disconnect(d, a, false);
                    }
                    if !ka && !bye && r.chance(op_rate * 0.1) {
                        if r.chance(0.4) { x.w.send(r.below(2) as usize, a, 0, 3, 0); }
                        match r.below(20) {
                            0..=5 => x.w.disconnect(1, a, false),
                            6..=8 => x.w.disconnect(1, a, true),
                            9..=12 => x.w.disconnect(0, a, false),
                            13..=15 => x.w.disconnect(0, a, true),
                            16 => { if !disc || r.chance(0.2) { x.w.srv_drop(a) } }
                            17 => { if !disc || r.chance(0.2) { x.w.cl_drop(a) } }
                            18 => { let k = r.below(3); x.w.poke_old(a, k) }
                            _ => { x.w.disconnect(0, a, false); x.w.disconnect(1, a, r.chance(0.3)); }
                        }
                    }
                    if !ka && r.chance(op_rate * 0.3) { let o = x.w.cl_flush(a); x.route(o); }
                }
                if !ka && r.chance(op_rate * 0.3) { let o = x.w.srv_flush(); x.route(o); }
                for i in 0..x.raws.len() {
                    let a = x.raws[i].a;
                    if r.chance(op_rate * 0.05) {
                        match r.below(4) { 0 => x.w.disconnect(0, a, false), 1 => x.w.disconnect(0, a, true), 2 => x.w.srv_drop(a), _ => x.w.send(0, a, 0, 3, 100) }
                    }
                }
            } else if !ka && !amp && t < fault_end + 200 {
                // Everyone leaves eventually
                for &a in &reals { if !left[a] && (bye || r.chance(0.05)) { left[a] = bye; if bye && !x.w.connected[a - 1] { continue; } let d = r.below(2) as usize; let now = !bye && r.chance(0.2); if r.chance(0.4) { x.w.send(d, a, 0, 3, 0); } if bye { last_words(r, &mut x, d, a, t, &mut busy); } x.w.disconnect(d, a, now); } }
            }
            // Steps, in varying order
            let srv_first = r.chance(0.5);
            let srv_turn = t >= busy.0 && (calm || srv_poll == 1 || r.below(srv_poll) == 0);
            if srv_first && srv_turn { gap[0] = gap[0].max(t - pauses[0]); pauses[0] = t; x.step_srv(); }
            for &a in &reals {
                if t < busy.1[a % 64] || (!calm && r.chance(skip_p)) || (!calm && r.below(poll[a % 16]) > 0) { continue; }
                gap[1] = gap[1].max(t - x.w.cls[a - 1].as_ref().unwrap().last_step);
                x.step_cl(a);
            }
            if !srv_first && srv_turn { gap[0] = gap[0].max(t - pauses[0]); pauses[0] = t; x.step_srv(); }
        }
        extra = format!("\"ideal\":{},\"gap\":{},\"dmax\":{},\"settle\":{}", ideal, gap[0].max(gap[1]), seen_delay, fault_end);
        let now = x.w.now;
        x.w.ev.push(format!("{{\"e\":\"z\",\"t\":{}}}", now));
        // Teardown
        for a in 1..=x.w.na() { if r.chance(0.5) { if let Some(Some(c)) = x.w.cls.get_mut(a - 1) { c.c = None; } } }
        x.w.srv = None;
    });
    if let Err(m) = res {
        x.w.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m));
        if !extra.contains("gap") { extra = "\"ideal\":0,\"gap\":100000,\"dmax\":100000,\"settle\":0".to_string(); }
    }
    let l = x.w.line(&job, &extra);
    crate::pool::forget_on_panic(x);
    (job, l)
}
