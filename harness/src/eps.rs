//! Replays behaviours of Endpoint.tla into a real Server and real Clients: API calls, which
//! datagram reaches whom before which step, how time passes. The code decides what it sends.
use crate::peers::*;
use crate::pool;
use crate::rng::{mix, Rng};
use crate::wire::{self, Frame};
use crate::world::*;

struct Sent { d: usize, a: usize, kind: char, nonce: usize, at: u64, pkt: Pkt, used: bool }

struct Run {
    w: World,
    rng: Rng,
    pool: Vec<Sent>,
    /// nonces of the server by address, in order
    snonce: Vec<Vec<u32>>,
    gap: [u64; 2],
    dmax: u64,
    srv_at: u64,
    tick: u64,
    tick_at: u64,
    kinds: Vec<usize>,
}

impl Run {
    fn note(&mut self, out: Vec<Pkt>) {
        for p in out {
            let d = if p.from == self.w.saddr { 0 } else { 1 };
            let a = match self.w.index(if d == 0 { &p.to } else { &p.from }) { Some(a) => a, None => continue };
            while self.snonce.len() <= a { self.snonce.push(Vec::new()); }
            let (kind, n) = match wire::decode(&p.data) {
                Some(Frame::Syn { .. }) => ('N', 0),
                Some(Frame::SynAck { nonce, .. }) => {
                    let l = &mut self.snonce[a];
                    if !l.contains(&nonce) { l.push(nonce); }
                    ('B', l.iter().position(|x| *x == nonce).unwrap() + 1)
                }
                Some(Frame::Ack { nonce_ack }) => ('A', self.snonce[a].iter().position(|x| *x == nonce_ack).map_or(0, |k| k + 1)),
                Some(Frame::Err { .. }) => ('E', 0),
                Some(Frame::Disc) => ('Q', 0),
                Some(Frame::DiscAck) => ('q', 0),
                Some(Frame::Acks { .. }) => ('K', 0),
                Some(_) => ('F', 0),
                None => continue,
            };
            self.pool.push(Sent { d, a, kind, nonce: n, at: self.w.now, pkt: p, used: false });
        }
    }

    fn pass(&mut self, dt: u64) { let t = self.w.now + dt; self.w.set_time(t); }

    fn srv_step(&mut self) {
        self.gap[0] = self.gap[0].max(self.w.now - self.srv_at);
        self.srv_at = self.w.now;
        let o = self.w.srv_step();
        self.note(o);
    }

    fn cl_step(&mut self, a: usize) {
        if let Some(Some(c)) = self.w.cls.get(a - 1) { self.gap[1] = self.gap[1].max(self.w.now - c.last_step); } else { return; }
        let o = self.w.cl_step(a);
        self.note(o);
    }

    fn stage(&mut self, p: Pkt) {
        if p.to == self.w.saddr { self.w.staged_srv.push(p); } else if let Some(a) = self.w.index(&p.to) { self.w.staged_cl[a - 1].push(p); }
    }

    /// `x`, `y` as in the specification; 0 or 7 where the specification forges
    fn message(&mut self, d: usize, a: usize, k: char, x: usize, y: usize) {
        let own = if d == 1 { self.w.addrs[a - 1] } else { self.w.saddr };
        let to = if d == 1 { self.w.saddr } else { self.w.addrs[a - 1] };
        let forged = match (d, k) { (1, 'N') | (1, 'A') => x == 0, (0, 'B') => y == 0, (0, 'E') => x == 0, _ => false };
        if forged {
            let r = self.rng.u32();
            let near = if self.rng.chance(0.5) { self.w.sn[a - 1].unwrap_or(r).wrapping_add(1) } else { r };
            let sp = &self.w.scfg.ep;
            let f = match (d, k) {
                (1, 'N') => Frame::Syn { version: 3, nonce: r, rate: 50_000, psize: sp.alloc.min(500) as u32, alloc: sp.psize as u32 },
                (1, _) => Frame::Ack { nonce_ack: near },
                (_, 'B') => Frame::SynAck { nonce_ack: self.w.cn[a - 1].unwrap_or(r).wrapping_add(1), nonce: r, rate: 70_000, psize: 100, alloc: 3000 },
                _ => Frame::Err { nonce_ack: r, code: (y % 3) as u8 },
            };
            return self.stage(Pkt { from: own, to, data: wire::encode(&f) });
        }
        let now = self.w.now;
        match k {
            'F' | 'K' => {
                let fresh: Vec<usize> = (0..self.pool.len()).filter(|i| { let s = &self.pool[*i]; s.d == d && s.a == a && s.kind == k && !s.used }).collect();
                let all: Vec<usize> = (0..self.pool.len()).filter(|i| { let s = &self.pool[*i]; s.d == d && s.a == a && s.kind == k }).collect();
                let pick = if !fresh.is_empty() { fresh } else if !all.is_empty() { vec![*self.rng.pick(&all)] } else { return };
                for i in pick {
                    self.pool[i].used = true;
                    self.dmax = self.dmax.max(now - self.pool[i].at);
                    let p = self.pool[i].pkt.clone();
                    self.stage(p);
                }
            }
            _ => {
                let want = match (d, k) { (0, 'B') | (1, 'A') => x % 100, _ => 0 };
                let hits: Vec<usize> = (0..self.pool.len()).filter(|i| { let s = &self.pool[*i]; s.d == d && s.a == a && s.kind == k && (want == 0 || s.nonce == want) }).collect();
                if hits.is_empty() { return; }
                let i = if self.rng.chance(0.7) { hits[hits.len() - 1] } else { *self.rng.pick(&hits) };
                self.dmax = self.dmax.max(now - self.pool[i].at);
                self.pool[i].used = true;
                let mut p = self.pool[i].pkt.clone();
                if k == 'N' && self.kinds[a - 1] == 1 {
                    // Another protocol version
                    let n = p.data.len();
                    p.data[1] = 2;
                    p.data.truncate(n - 4);
                    p.data = wire::seal(p.data);
                }
                self.stage(p);
            }
        }
    }

    fn wait(&mut self, n: usize) {
        for _ in 0..n {
            self.srv_step();
            for a in 1..=self.w.na() { self.cl_step(a); }
            let t = (self.tick_at + self.tick).max(self.w.now + 1);
            self.tick_at = t;
            self.w.set_time(t);
        }
    }
}

pub fn run(line: &str, idx: u64, seed: u64) -> String {
    let s = mix(mix(seed, idx), 0xe9d5);
    let mut rng = Rng::new(s);
    let r = &mut rng;
    let mut tok = line.split(' ');
    let head: Vec<usize> = tok.next().unwrap().split(',').skip(1).map(|x| x.parse().unwrap()).collect();
    let (na, mt, ma, to) = (head[0], head[1], head[2], head[3] as u64);
    let tick = 2000 + *r.pick(&[0u64, 1, 7, 40]);
    let sep = EpCfg {
        timeout_ms: to * tick - *r.pick(&[0u64, 500, 1500]), psize: *r.pick(&[1000usize, 5000]), alloc: *r.pick(&[20_000usize, 50_000]),
        keepalive: r.chance(0.4), keepalive_ms: *r.pick(&[1000u64, 2500, 5000]), ..EpCfg::default()
    };
    let scfg = SrvCfg { max_total: mt, max_active: ma, errs: r.chance(0.8), ep: sep.clone() };
    let mut x = Run { w: World::new(scfg, s), rng: Rng::new(s ^ 0x31), pool: Vec::new(), snonce: Vec::new(), gap: [0, 0], dmax: 0, srv_at: 0, tick, tick_at: 0, kinds: Vec::new() };
    let job = format!("eps:{}", idx);
    let mut amap: Vec<Option<usize>> = vec![None; na + 1];
    let res = pool::guard(|| {
        for t in tok.filter(|t| !t.is_empty()) {
            let f: Vec<&str> = t.split(',').collect();
            let num = |k: usize| -> usize { f[k].parse().unwrap() };
            let dt = *x.rng.pick(&[0u64, 1, 1, 5, 20]);
            x.pass(dt);
            match f[0] {
                "C" => {
                    let mut c = EpCfg { timeout_ms: sep.timeout_ms, psize: *x.rng.pick(&[1000usize, 5000]), alloc: *x.rng.pick(&[20_000usize, 50_000]), keepalive: sep.keepalive, ..EpCfg::default() };
                    c.keepalive_ms = sep.keepalive_ms;
                    if num(2) == 2 { if x.rng.chance(0.5) { c.alloc = sep.psize - 1; } else { c.psize = sep.alloc + 1; } }
                    x.kinds.resize(x.w.na() + 1, 0);
                    let k = x.w.na();
                    x.kinds[k] = num(2);
                    let (a, o) = x.w.connect(c, None);
                    amap[num(1)] = Some(a);
                    x.note(o);
                }
                "s" => {
                    for m in f[1..].chunks(4) {
                        // An address whose client has not been created yet is a scripted one
                        let n: usize = m[0].parse().unwrap();
                        if let Some(a) = amap[n] { x.message(1, a, m[1].trim_matches('"').chars().next().unwrap(), m[2].parse().unwrap(), m[3].parse().unwrap()); }
                    }
                    x.srv_step();
                }
                "c" => if let Some(a) = amap[num(1)] {
                    for m in f[2..].chunks(3) { x.message(0, a, m[0].trim_matches('"').chars().next().unwrap(), m[1].parse().unwrap(), m[2].parse().unwrap()); }
                    x.cl_step(a);
                },
                "W" => x.wait(num(1)),
                "S" => if let Some(a) = amap[num(2)] {
                    for k in 0..x.rng.range(1, 2) {
                        let len = *x.rng.pick(&[8usize, 200, 1448, 3000, 0]);
                        let mode = if k == 0 { 3 } else { x.rng.below(4) as usize };
                        let ch = x.rng.below(3) as usize;
                        x.w.send(num(1), a, ch, mode, len);
                    }
                },
                "Q" => if let Some(a) = amap[num(2)] { x.w.disconnect(num(1), a, false); },
                "N" => if let Some(a) = amap[num(2)] { x.w.disconnect(num(1), a, true); },
                "P" => if let Some(a) = amap[num(2)] { if num(1) == 1 { x.w.cl_drop(a) } else { x.w.srv_drop(a) } },
                _ => (),
            }
        }
        // Fair ending
        let stop = x.w.now + 50_000 + to * tick;
        let from = x.pool.len();
        for s in x.pool.iter_mut() { if x.rng.chance(0.7) { s.used = true; } }
        while x.w.now < stop {
            x.pass(50);
            for i in 0..x.pool.len() {
                if (i < from && x.pool[i].kind != 'F') || x.pool[i].used { continue; }
                x.pool[i].used = true;
                x.dmax = x.dmax.max(x.w.now - x.pool[i].at);
                let mut p = x.pool[i].pkt.clone();
                if x.pool[i].kind == 'N' && x.kinds[x.pool[i].a - 1] == 1 { let n = p.data.len(); p.data[1] = 2; p.data.truncate(n - 4); p.data = wire::seal(p.data); }
                x.stage(p);
            }
            x.srv_step();
            for a in 1..=x.w.na() { x.cl_step(a); }
        }
        let now = x.w.now;
        x.w.ev.push(format!("{{\"e\":\"z\",\"t\":{}}}", now));
    });
    let extra = format!("\"ideal\":0,\"gap\":{},\"dmax\":{},\"settle\":0", x.gap[0].max(x.gap[1]), x.dmax);
    if let Err(m) = res { x.w.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); }
    let l = x.w.line(&job, &extra);
    pool::forget_on_panic(x);
    l
}
