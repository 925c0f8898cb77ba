//! Replays behaviours of spec/Adversary.tla against a real server or client: the abstract actions
//! get concrete values here. Records how every call returned and whether other connections are
//! still served.
use crate::heap::inside;
use crate::peers::*;
use crate::pool;
use crate::rng::{mix, Rng};
use crate::wire::{self, Dg, Frame, Group, FRAG};
use std::cell::RefCell;
use std::net::SocketAddr;
use std::rc::Rc;
use uflow::server::RemoteClient;
use uflow::verif::{net, rand};

const HOSTILE: &str = "10.6.6.6:6666";

#[repr(C)]
struct Timespec { s: i64, n: i64 }
extern "C" { fn clock_gettime(id: i32, t: *mut Timespec) -> i32; }

/// CPU milliseconds of this thread
fn cpu_ms() -> u64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1000 + t.n as u64 / 1_000_000
}

struct Honest { c: uflow::client::Client, addr: SocketAddr, k: u8, up: bool, waiting: bool, pongs: u32, dead: bool }

impl Honest {
    fn new(ep: &EpCfg) -> Self {
        let c = inside(|| uflow::client::Client::connect(SERVER_ADDR, uflow::client::Config { endpoint_config: ep.build() })).unwrap();
        let addr = c.local_address();
        Honest { c, addr, k: 0, up: false, waiting: false, pongs: 0, dead: false }
    }
    fn step(&mut self) {
        let evs: Vec<uflow::client::Event> = inside(|| self.c.step().collect());
        for e in evs {
            match e {
                uflow::client::Event::Connect => self.up = true,
                uflow::client::Event::Receive(d) => if d.len() == 1 && d[0] == self.k { self.waiting = false; self.pongs += 1; },
                _ => self.dead = true,
            }
        }
        if self.up && !self.waiting && !self.dead {
            self.k = self.k.wrapping_add(1);
            self.waiting = true;
            let k = self.k;
            inside(|| self.c.send(vec![k].into_boxed_slice(), 7, MODES[3]));
        }
    }
}

struct Adv {
    srv: Option<uflow::server::Server>,
    cl: Option<uflow::client::Client>,
    /// address of the endpoint under attack
    addr: SocketAddr,
    hostile: SocketAddr,
    handle: Option<Rc<RefCell<RemoteClient>>>,
    honest: Vec<Honest>,
    now: u64,
    psize: usize,
    /// ids of the hostile peer
    nonce: u32,
    seq: u32,
    pid: u32,
    rfb: u32,
    rpb: u32,
    /// ids of the endpoint
    tnonce: u32,
    tknown: bool,
    acked_f: u32,
    acked_p: u32,
    end_f: u32,
    end_p: u32,
    /// data frames of the endpoint not acknowledged yet
    frames: Vec<(u32, bool)>,
    mine: Vec<Vec<u8>>,
    theirs: Vec<Vec<u8>>,
    last_group: Option<Group>,
    active: bool,
    ended: bool,
    worst: u64,
    calls: u64,
}

impl Adv {
    fn call<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let t = cpu_ms();
        let x = inside(|| f(self));
        self.worst = self.worst.max(cpu_ms() - t);
        self.calls += 1;
        x
    }

    fn put(&mut self, d: Vec<u8>) {
        net::deliver(self.hostile, self.addr, &d);
        if self.mine.len() > 40 { self.mine.remove(0); }
        self.mine.push(d);
    }

    fn frame(&mut self, f: &Frame) { let d = wire::encode(f); self.put(d) }

    fn route(&mut self) {
        for d in net::take_outbox() {
            let data = d.data.into_vec();
            if self.honest.iter().any(|h| d.from == h.addr || d.to == h.addr) {
                net::deliver(d.from, d.to, &data);
                continue;
            }
            if d.to != self.hostile { continue; }
            match wire::decode(&data) {
                Some(Frame::SynAck { nonce, .. }) => { self.tnonce = nonce; if !self.tknown { self.ids(); } }
                Some(Frame::Syn { nonce, .. }) => { self.tnonce = nonce; if !self.tknown { self.ids(); } }
                Some(Frame::Data { seq, nonce, dgs }) => {
                    if seq.wrapping_sub(self.end_f) < 0x8000_0000 { self.end_f = seq.wrapping_add(1); }
                    self.frames.push((seq, nonce));
                    for g in dgs { if (g.pid.wrapping_sub(self.end_p) & 0xfffff) < 0x80000 { self.end_p = (g.pid + 1) & 0xfffff; } }
                }
                Some(Frame::Acks { fb, pb, .. }) => { self.rfb = fb; self.rpb = pb; }
                _ => (),
            }
            if self.theirs.len() > 20 { self.theirs.remove(0); }
            self.theirs.push(data);
        }
    }

    fn ids(&mut self) {
        self.acked_f = self.tnonce;
        self.end_f = self.tnonce;
        self.acked_p = self.tnonce & 0xfffff;
        self.end_p = self.tnonce & 0xfffff;
    }

    fn step(&mut self) {
        if self.srv.is_some() {
            let evs: Vec<uflow::server::Event> = self.call(|x| x.srv.as_mut().unwrap().step().collect());
            for e in evs {
                use uflow::server::Event::*;
                match e {
                    Connect(a) if a == self.hostile => { self.active = true; self.tknown = true; self.ended = false; self.handle = self.srv.as_ref().unwrap().client(&a).cloned(); }
                    Disconnect(a) | Error(a, _) if a == self.hostile => { self.ended = true; self.active = false; self.tknown = false; }
                    Receive(a, d) if a != self.hostile => {
                        // The application echoes what honest clients say
                        if let Some(c) = self.srv.as_ref().unwrap().client(&a).cloned() {
                            inside(|| { let b = d.to_vec().into_boxed_slice(); c.borrow_mut().send(b, 7, MODES[3]) });
                        }
                        inside(|| drop(d));
                    }
                    Receive(_, d) => inside(|| drop(d)),
                    _ => (),
                }
            }
        }
        if self.cl.is_some() {
            let evs: Vec<uflow::client::Event> = self.call(|x| x.cl.as_mut().unwrap().step().collect());
            for e in evs {
                use uflow::client::Event::*;
                match e {
                    Connect => { self.active = true; self.tknown = true; }
                    Disconnect | Error(_) => { self.ended = true; self.active = false; }
                    Receive(d) => inside(|| drop(d)),
                }
            }
        }
        self.route();
        for i in 0..self.honest.len() { self.honest[i].step(); }
        self.route();
    }

    fn tick(&mut self, dt: u64) {
        self.now += dt;
        set_ms(self.now);
        self.step();
    }

    fn send(&mut self, r: &mut Rng, mode: usize, len: usize) {
        let len = len.min(self.psize);
        let ch = *r.pick(&[0usize, 1, 5, 63]);
        let h = self.handle.clone();
        self.call(|x| {
            let b = vec![0x77u8; len].into_boxed_slice();
            if let Some(ref mut c) = x.cl { c.send(b, ch, MODES[mode]); } else if let Some(h) = h { h.borrow_mut().send(b, ch, MODES[mode]); }
        });
    }

    fn disconnect(&mut self, nowf: bool) {
        let h = self.handle.clone();
        self.call(|x| {
            if let Some(ref mut c) = x.cl { if nowf { c.disconnect_now() } else { c.disconnect() } } else if let Some(h) = h { if nowf { h.borrow_mut().disconnect_now() } else { h.borrow_mut().disconnect() } }
        });
    }

    fn shake(&self, what: &str, r: &mut Rng) -> (u32, u32, u32, u8) {
        match what {
            "zero" => (0, 0, 0, 3),
            "max" => (u32::MAX, u32::MAX, u32::MAX, 3),
            "tiny" => (1, 1, 1, 3),
            "version" => (1_000_000, 1, 1 << 30, *r.pick(&[0u8, 2, 4, 255])),
            _ => (2_000_000, 1, 1 << 30, 3),
        }
    }

    fn lead(&self, l: &str, rel: u16, r: &mut Rng) -> (u16, u16) {
        match l {
            "zero" => (0, 0),
            "one" => (1, 1),
            "max" => (65535, 65535),
            "wild" => (r.u32() as u16, r.u32() as u16),
            _ => match r.below(8) {
                0 | 1 => (0, 0),
                2 => (1, 1),
                3 => (65535, 65535),
                4 => (rel, rel),
                5 => (1, rel),
                6 => (0, r.below(5) as u16),
                _ => { let a = r.below(6) as u16; (a, a + r.below(4) as u16) }
            },
        }
    }

    fn pidof(&mut self, p: &str) -> u32 {
        let b = self.rpb;
        (match p {
            "base" => b,
            "edge" => b.wrapping_add(4095),
            "out" => b.wrapping_add(4096),
            "old" => b.wrapping_sub(1),
            "far" => b.wrapping_add(0x80000),
            _ => { let x = self.pid; self.pid = (self.pid + 1) & 0xfffff; x }
        }) & 0xfffff
    }

    fn dg(&mut self, p: &str, s: &str, l: &str, r: &mut Rng) -> Dg {
        let pid = self.pidof(p);
        let rel = (pid.wrapping_sub(self.rpb) & 0xfffff) as u16;
        let (wl, cl) = self.lead(l, rel, r);
        let (frag, last, len) = match s {
            "one" => (0, 0, r.range(1, 60) as usize),
            "empty" => (0, 0, 0),
            "first" => (0, 1 + r.below(2) as u16, FRAG),
            "last" => { let k = 1 + r.below(2) as u16; (k, k, r.below(FRAG as u64 + 1) as usize) }
            "over" => (2 + r.below(3) as u16, 1, 10),
            "huge" => (*r.pick(&[0u16, 1, 65534]), 65535, FRAG),
            "hugelast" => (65535, 65535, 7),
            _ => (0, 1, *r.pick(&[0usize, 10, 1447])),
        };
        let ch = match r.below(6) { 0 => 63, 1 => 1, _ => 0 };
        Dg { pid, ch, wl, cl, frag, last, data: vec![0x33; len] }
    }

    fn group(&self, base: u32, flip: bool, bits: Option<u32>) -> Group {
        let mut b = 0u32;
        let mut n = flip;
        for (s, nn) in &self.frames {
            let o = s.wrapping_sub(base);
            if o < 32 && bits.map_or(true, |m| m >> o & 1 == 1) { if b >> o & 1 == 0 { n ^= nn; } b |= 1 << o; }
        }
        Group { base, bits: bits.unwrap_or(b), nonce: n }
    }

    fn abs(&self, c: &str, base: u32, end: u32, bits: u32) -> u32 {
        let far = if bits == 32 { 0x8000_0000 } else { 0x80000 };
        let v = match c {
            "same" | "base" => base,
            "next" => base.wrapping_add(1),
            "end" => end,
            "edge" => base.wrapping_add(4095),
            "out" => if bits == 0 { end.wrapping_add(1) } else { base.wrapping_add(4096) },
            "old" => base.wrapping_sub(1),
            "far" => base.wrapping_add(far),
            _ => return u32::MAX,
        };
        if bits == 32 { v } else { v & 0xfffff }
    }

    /// The peer behaves
    fn honestly(&mut self, rounds: u32) {
        for _ in 0..rounds {
            let mut groups = Vec::new();
            let mut b = self.acked_f;
            while b.wrapping_sub(self.end_f) >= 0x8000_0000 && groups.len() < 100 {
                let g = self.group(b, false, None);
                if g.bits != 0 { groups.push(g); }
                b = b.wrapping_add(32);
            }
            self.last_group = groups.last().cloned();
            self.acked_f = self.end_f;
            self.acked_p = self.end_p;
            self.frames.clear();
            let f = Frame::Acks { fb: self.end_f, pb: self.end_p, groups };
            self.frame(&f);
            let d = Dg { pid: self.pidof("next"), ch: 2, wl: 0, cl: 0, frag: 0, last: 0, data: vec![1, 2, 3] };
            let f = Frame::Data { seq: self.seq, nonce: true, dgs: vec![d] };
            self.seq = self.seq.wrapping_add(1);
            self.frame(&f);
            self.tick(10);
        }
    }

    fn act(&mut self, a: &[&str], r: &mut Rng) {
        match a[0] {
            "raw" => {
                let f = match r.below(6) {
                    0 => Frame::Acks { fb: self.acked_f, pb: self.acked_p, groups: vec![Group { base: self.acked_f, bits: 1, nonce: false }] },
                    1 => Frame::Sync { frame: Some(self.seq), packet: None },
                    2 => Frame::SynAck { nonce_ack: self.tnonce, nonce: self.nonce, rate: 1, psize: 1, alloc: 1 },
                    3 => Frame::Disc,
                    _ => { let d = self.dg("next", "one", "any", r); Frame::Data { seq: self.seq, nonce: false, dgs: vec![d.clone(), d] } }
                };
                let v = wire::encode(&f);
                let body = v[..v.len() - 4].to_vec();
                let rnd = |r: &mut Rng, n: u64| -> Vec<u8> { (0..n).map(|_| r.u32() as u8).collect() };
                let d = match a[1] {
                    "empty" => Vec::new(),
                    "one" => { let n = r.range(1, 5); rnd(r, n) }
                    "rand" => { let n = r.range(1, 1472); rnd(r, n) }
                    "type" => { let n = r.below(60); let mut b = vec![if r.chance(0.8) { r.below(16) as u8 } else { r.u32() as u8 }]; b.append(&mut rnd(r, n)); wire::seal(b) }
                    "trunc" => { let n = r.below(body.len() as u64) as usize; wire::seal(body[..n].to_vec()) }
                    "extend" => { let mut b = body; let n = r.range(1, 20); b.append(&mut rnd(r, n)); wire::seal(b) }
                    "flip" => { let mut b = body; let k = r.below(b.len() as u64) as usize; b[k] ^= 1 << r.below(8); wire::seal(b) }
                    "big" => { let n = *r.pick(&[1473u64, 1500, 9000, 65000]); rnd(r, n) }
                    "max" => { let mut b = rnd(r, 1468); b[0] = *r.pick(&[0u8, 1, 10, 11, 12]); wire::seal(b) }
                    _ => { let mut v = v; let n = v.len(); v[n - 1] ^= 1; v }
                };
                self.put(d);
            }
            "syn" => {
                let (rate, psize, alloc, version) = self.shake(a[1], r);
                let nonce = if a[1] == "other" { r.u32() } else { self.nonce };
                self.frame(&Frame::Syn { version, nonce, rate, psize, alloc });
            }
            "synack" => {
                let (rate, psize, alloc, _) = self.shake(a[1], r);
                let n = if a[1] == "bad" { r.u32() } else { self.tnonce };
                self.frame(&Frame::SynAck { nonce_ack: n, nonce: self.nonce, rate, psize, alloc });
            }
            "ack" => { let n = if a[1] == "bad" { r.u32() } else { self.tnonce }; self.frame(&Frame::Ack { nonce_ack: n }); }
            "err" => { let n = if a[1] == "bad" { r.u32() } else { self.tnonce }; let code = r.below(3) as u8; self.frame(&Frame::Err { nonce_ack: n, code }); }
            "disc" => self.frame(&Frame::Disc),
            "discack" => self.frame(&Frame::DiscAck),
            "data" => {
                let fb = self.rfb;
                let seq = match a[1] {
                    "next" => { let s = self.seq; self.seq = s.wrapping_add(1); s }
                    "edge" => fb.wrapping_add(4095),
                    "out" => fb.wrapping_add(4096),
                    "old" => fb.wrapping_sub(1),
                    _ => fb.wrapping_add(0x8000_0000),
                };
                let dgs = match a[2] {
                    "none" => vec![],
                    "many" => (0..127).map(|_| { let mut d = self.dg("next", "one", "any", r); d.data.truncate(4); d.wl &= 127; d.cl &= 255; d }).collect(),
                    "clash" => { let d = self.dg("next", a[3], "any", r); let mut e = d.clone(); e.ch ^= 1; e.data.truncate(10); e.last = *r.pick(&[0u16, 1, 3, 65535]); vec![if d.data.len() > 1000 { let mut f = d; f.frag = f.last; f.data.truncate(400); f } else { d }, e] }
                    p => vec![self.dg(p, a[3], a[4], r)],
                };
                let f = Frame::Data { seq, nonce: r.chance(0.5), dgs };
                self.frame(&f);
            }
            "sync" => {
                let frame = match a[1] { "none" => None, "next" => Some(self.seq), c => Some(self.abs(c, self.rfb, self.seq, 32)) };
                let packet = match a[2] { "none" => None, "next" => Some(self.pid), c => Some(self.abs(c, self.rpb, self.pid, 20)) };
                if a[1] == "edge" { self.seq = self.abs("edge", self.rfb, 0, 32); }
                self.frame(&Frame::Sync { frame, packet });
            }
            "acks" => {
                let fb = self.abs(a[1], self.acked_f, self.end_f, 32);
                let pb = self.abs(a[2], self.acked_p, self.end_p, 20);
                let f = match a[3] {
                    "none" => vec![],
                    "good" => vec![self.group(self.acked_f, false, None)],
                    "wrong" => vec![self.group(self.acked_f, true, None)],
                    "unknown" => vec![self.group(self.end_f.wrapping_add(*r.pick(&[0u32, 1, 40, 4096, 0x7fff_ffff])), false, Some(r.u32()))],
                    "full" => vec![self.group(self.acked_f, r.chance(0.5), Some(u32::MAX))],
                    "gap" => { let m = r.u32() & r.u32(); vec![self.group(self.acked_f.wrapping_sub(r.below(20) as u32), false, Some(m))] }
                    "many" => (0..161).map(|k| self.group(self.acked_f.wrapping_add(32 * k), false, if r.chance(0.5) { Some(r.u32()) } else { None })).collect(),
                    _ => self.last_group.iter().cloned().collect::<Vec<_>>(),
                };
                if let Some(g) = f.last() { self.last_group = Some(g.clone()); }
                self.frame(&Frame::Acks { fb, pb, groups: f });
                if a[1] == "next" && self.acked_f != self.end_f || a[1] == "end" { self.acked_f = fb; }
                if a[2] == "next" && self.acked_p != self.end_p || a[2] == "end" { self.acked_p = pb; }
            }
            "send" => {
                let m = match a[1] { "T" => 0, "U" => 1, "P" => 2, _ => 3 };
                let n = match a[2] { "0" => 0, "1" => 1, "frag" => FRAG + r.below(2) as usize, _ => *r.pick(&[1_000_000usize, 30_000, 4345]) };
                self.send(r, m, n);
            }
            "burst" => { let m = r.below(5) as usize; for _ in 0..4500 { let k = if m < 4 { m } else { r.below(4) as usize }; self.send(r, k, 1); } }
            "flush" => self.call(|x| { if let Some(ref mut s) = x.srv { s.flush() } if let Some(ref mut c) = x.cl { c.flush() } }),
            "step" => { let dt = *r.pick(&[0u64, 1, 20]); self.tick(dt) }
            "disconnect" => self.disconnect(false),
            "disconnect_now" => self.disconnect(true),
            "time" => { let dt: u64 = a[1].parse().unwrap(); self.tick(dt) }
            "honest" => { let n = *r.pick(&[1u32, 3, 10]); self.honestly(n) }
            "replay" => { for d in self.mine.clone() { net::deliver(self.hostile, self.addr, &d); } }
            "reflect" => { for d in self.theirs.clone() { net::deliver(self.hostile, self.addr, &d); } }
            x => panic!("HARNESS: unknown action {}", x),
        }
        self.route();
    }
}

pub fn run(text: &str, idx: u64, seed: u64) -> String {
    let s = mix(mix(seed, idx), 0xad5e);
    let mut rr = Rng::new(s);
    let r = &mut rr;
    let words: Vec<&str> = text.split(' ').filter(|w| !w.is_empty()).collect();
    let (tgt, phase, acts) = (words[0], words[1], &words[2..]);
    reset_env(s);
    let mut ev: Vec<String> = Vec::new();
    let slow = r.chance(0.15);
    let forever = r.chance(0.6);
    let ep = EpCfg {
        send_rate: if slow { *r.pick(&[1usize, 23, 1500]) } else { *r.pick(&[100_000usize, 2_000_000, usize::MAX]) },
        recv_rate: if slow { 2_000_000 } else { *r.pick(&[2_000_000usize, usize::MAX]) },
        psize: *r.pick(&[1usize, 5000, 1_000_000, uflow::MAX_PACKET_SIZE]),
        alloc: *r.pick(&[1usize, 5000, 1_000_000, usize::MAX]),
        keepalive: r.chance(0.5),
        keepalive_ms: *r.pick(&[0u64, 1, 5000]),
        timeout_ms: if forever { 1 << 45 } else { *r.pick(&[0u64, 5000, 20_000, u64::MAX]) },
    };
    // The honest clients only need packets of one byte
    let hep = EpCfg { psize: 1, alloc: 1 << 31, keepalive: true, keepalive_ms: 1000, timeout_ms: 1 << 45, send_rate: 2_000_000, recv_rate: 2_000_000 };
    let nonce = crate::recv::nonce(r);
    let tnonce = crate::recv::nonce(r);
    rand::force_u32(tnonce);
    let mut x = Adv {
        srv: None, cl: None, addr: SERVER_ADDR.parse().unwrap(), hostile: HOSTILE.parse().unwrap(), handle: None, honest: Vec::new(), now: 0, psize: ep.psize,
        nonce, seq: nonce, pid: nonce & 0xfffff, rfb: nonce, rpb: nonce & 0xfffff, tnonce, tknown: false, acked_f: tnonce, acked_p: tnonce & 0xfffff, end_f: tnonce, end_p: tnonce & 0xfffff,
        frames: Vec::new(), mine: Vec::new(), theirs: Vec::new(), last_group: None, active: false, ended: false, worst: 0, calls: 0,
    };
    let mut verdict = (-1i32, -1i32);
    let res = pool::guard(|| {
        let good = |a: &mut Adv, r: &mut Rng| {
            if a.srv.is_some() { a.act(&["syn", "good"], r); } else { a.act(&["synack", "good"], r); }
        };
        if tgt == "S" {
            x.srv = Some(inside(|| uflow::server::Server::bind(SERVER_ADDR, uflow::server::Config { endpoint_config: ep.build(), enable_handshake_errors: r.chance(0.5), ..Default::default() })).unwrap());
            if phase != "fresh" { good(&mut x, r); x.tick(5); }
            if phase != "fresh" && phase != "pending" { x.act(&["ack", "good"], r); x.tick(5); }
            if !slow { x.honest.push(Honest::new(&hep)); }
        } else {
            x.hostile = SERVER_ADDR.parse().unwrap();
            let c = inside(|| uflow::client::Client::connect(SERVER_ADDR, uflow::client::Config { endpoint_config: ep.build() })).unwrap();
            x.addr = c.local_address();
            x.cl = Some(c);
            x.route();
            if phase != "pending" { good(&mut x, r); x.tick(5); }
        }
        for _ in 0..3 { x.tick(2); }
        if phase == "closing" { x.send(r, 3, 1); x.disconnect(r.chance(0.5)); x.tick(5); }
        if phase == "closed" { x.act(&["disc"], r); x.tick(5); }
        let skip = r.f64();
        // A round trip during a pause leaves an enormous RTT estimate, and a minute rate
        let forever = forever && !acts.iter().any(|a| matches!(*a, "time,3000" | "time,30000" | "time,3600000" | "time,5000000000"));
        for a in acts {
            let w: Vec<&str> = a.split(',').collect();
            let t = cpu_ms();
            x.worst = 0;
            x.act(&w, r);
            if !r.chance(skip) { let dt = *r.pick(&[0u64, 1, 10, 30]); x.tick(dt); }
            let _ = t;
            ev.push(format!("{{\"e\":\"A\",\"c\":{}}}", x.worst.min(1_000_000)));
        }
        x.worst = 0;
        for _ in 0..3 { x.tick(10); }
        for m in 0..4 { x.send(r, m, *[1usize, 3000].get(m & 1).unwrap()); }
        for _ in 0..2 { x.tick(20); }
        for _ in 0..4 { x.tick(1100); }
        x.honestly(2);
        if tgt == "S" && !slow {
            // Whoever behaves is still served
            let before = x.honest[0].pongs;
            x.honest.push(Honest::new(&hep));
            let mut k = 0;
            while k < 600 && (x.honest[1].pongs == 0 || (forever && x.honest[0].pongs == before)) { x.tick(if k < 200 { 10 } else { 50 }); k += 1; }
            let short = !forever && ep.timeout_ms == 0;
            verdict = (if forever { (x.honest[0].pongs > before) as i32 } else { -1 }, if short { -1 } else { (x.honest[1].pongs > 0) as i32 });
        }
        // Teardown is part of the game
        x.handle = None;
        x.honest.clear();
        let t = cpu_ms();
        inside(|| { x.srv = None; x.cl = None; });
        x.worst = x.worst.max(cpu_ms() - t);
        ev.push(format!("{{\"e\":\"Z\",\"c\":{},\"old\":{},\"new\":{}}}", x.worst.min(1_000_000), verdict.0, verdict.1));
    });
    if let Err(m) = res { ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); }
    pool::forget_on_panic(x);
    net::reset();
    format!("{{\"fam\":\"A\",\"job\":\"adv:{}\",\"tgt\":\"{}\",\"ph\":\"{}\",\"acts\":\"{}\",\"ev\":[{}]}}", idx, tgt, phase, acts.join(" "), ev.join(","))
}
