//! Replays behaviours of Transfer.tla: what is submitted, which frames arrive and in which order,
//! how time passes. The code decides what it sends; the schedule decides what becomes of it.
use crate::link::*;
use crate::peers::*;
use crate::pool;
use crate::rng::{mix, Rng};
use crate::scen;
use crate::wire::{self, Frame};

struct Sched {
    l: Link,
    rng: Rng,
    fair: NetParams,
    /// first frame of the pool not yet there when the k-th sync / acknowledgement frame was due
    syncs: Vec<Option<usize>>,
    acks: Vec<Option<usize>>,
    /// acknowledgements handed to the sender, not processed yet
    inbox: Vec<Vec<u8>>,
    full: bool,
}

impl Sched {
    fn pass(&mut self, dt: u64) { let t = self.l.now + dt; self.l.set_time(t); }

    fn step_sender(&mut self) {
        let a = std::mem::take(&mut self.inbox);
        self.l.step_with(0, a, &self.fair.clone());
    }

    fn step_receiver(&mut self) { self.l.step_with(1, Vec::new(), &self.fair.clone()); }

    /// Lets time pass until peer `p` sends a frame of that kind
    fn until(&mut self, p: usize, kind: char, pauses: &[u64]) -> Option<usize> {
        let n = self.l.pool[p].len();
        for d in pauses {
            self.pass(*d);
            if p == 0 {
                self.step_sender();
            }
            self.l.flush(p, &self.fair.clone());
            if let Some(k) = (n..self.l.pool[p].len()).find(|k| self.l.pool[p][*k].kind == kind) { return Some(k); }
        }
        None
    }

    /// Both ends exchange a few packets: the sender learns the round trip time and a useful rate
    fn warm_up(&mut self, rtt: u64) {
        self.l.manual = false;
        let np = NetParams::fair(rtt / 2);
        if !self.full {
            // Handshake
            for _ in 0..40 { if self.l.peers[0].phase() == Phase::Active && self.l.peers[1].phase() == Phase::Active { break; } self.pass(rtt / 2 + 1); self.l.step(0, &np); self.l.step(1, &np); }
        }
        for _ in 0..2 {
            self.l.send(0, 0, 1, 1448, None);
            for _ in 0..6 { self.pass(rtt / 2 + 1); self.l.step(0, &np); self.l.flush(0, &np); self.pass(rtt / 2 + 1); self.l.step(1, &np); self.l.flush(1, &np); }
        }
        self.l.manual = true;
    }

    fn act(&mut self, c0: usize, base: u32, op: &str, a: &[usize]) {
        match op {
            "S" => {
                // Whole fragments mostly, so that sizes are those of the specification
                let last = if self.rng.chance(0.6) { 1448 } else { self.rng.range(700, 1448) as usize };
                self.l.send(0, (c0 + 17 * a[0]) % 64, a[1], (a[2] - 1) * 1448 + last, None);
            }
            "D" => { self.until(0, 'D', &[0, 1, 3, 20, 100, 500, 3000, 20_000]); }
            "Y" => { let k = self.until(0, 'Y', &[2001, 700, 3000, 20_000]); self.syncs.push(k); }
            "K" => { let k = self.until(1, 'K', &[1]); self.acks.push(k); }
            "R" => { self.pass(1); self.step_receiver(); }
            "X" => { let d = self.rng.range(1, 6); self.pass(d); self.step_sender(); }
            "f" => { let d = self.rng.range(80, 700); self.pass(d); self.step_sender(); }
            "d" => {
                // The latest frame which carries the fragment (uids count the warm-up packets)
                let (u, k) = (a[0] as u32 + base, a[1] as u16);
                let hit = self.l.pool[0].iter().rev().find(|f| match wire::decode(&f.data) {
                    Some(Frame::Data { dgs, .. }) => dgs.iter().any(|g| self.l.uid_of(0, g.pid) == u && g.frag == k),
                    _ => false,
                });
                if let Some(d) = hit.map(|f| f.data.clone()) { self.l.peers[1].deliver(&d); self.l.peers[1].absorb(); }
            }
            "y" => if let Some(Some(k)) = self.syncs.get(a[0] - 1) { let d = self.l.pool[0][*k].data.clone(); self.l.peers[1].deliver(&d); self.l.peers[1].absorb(); },
            "k" => if let Some(Some(k)) = self.acks.get(a[0] - 1) {
                let d = self.l.pool[1][*k].data.clone();
                self.l.peers[0].deliver(&d);
                self.inbox.push(d);
                // Several acknowledgements may be processed by one step()
                if self.rng.chance(0.7) { self.step_sender(); }
            },
            _ => (),
        }
    }
}

pub fn run(line: &str, idx: u64, seed: u64) -> Vec<String> {
    let mut tok = line.split(' ');
    let nums = |t: &str| -> Vec<usize> { t.split(',').skip(1).map(|x| x.parse().unwrap()).collect() };
    let head = nums(tok.next().unwrap());
    let (w, fw, alloc, base) = (head[0] as u32, head[1] as u32, head[2] * 1448, head[3] as u32);
    let s = mix(mix(seed, idx), 0x5c4ed);
    let mut rng = Rng::new(s);
    let rtt = *rng.pick(&[2u64, 10, 40, 200]);
    let wrap = *rng.pick(&[0u32, 0x0fff_fff0, 0xffff_fff0, 0x000f_fff0]);
    let nonces = (wrap.wrapping_add(base).wrapping_sub(2), rng.u32());
    let mut cfg = scen::scenario("mix", idx, seed);
    cfg.seed = s;
    cfg.tag = "sched";
    cfg.nonces = nonces;
    cfg.ideal = false;
    cfg.fair_delay = rtt / 2;
    cfg.bulk = 0;
    cfg.probes = idx % 4 == 0;
    cfg.level = level(&mut rng, idx, w, fw, alloc);
    let mut l = Link::new(&cfg.level, nonces, s);
    let c2 = cfg.clone();
    let job = format!("sched:{}", idx);
    let f = move |p: usize| format!("\"job\":\"{}\",{}", job, fields(&c2, p));
    let full = matches!(cfg.level, Level::Ep { .. }) == false;
    l.manual = true;
    let c0 = rng.below(64) as usize;
    let mut x = Sched { l, rng, fair: NetParams::fair(rtt / 2), syncs: Vec::new(), acks: Vec::new(), inbox: Vec::new(), full };
    let acts: Vec<(String, Vec<usize>)> = tok.filter(|t| !t.is_empty()).map(|t| (t.split(',').next().unwrap().to_string(), nums(t))).collect();
    let res = pool::guard(|| {
        x.warm_up(rtt);
        let from = x.l.half[0].pk.len() as u32;
        for (op, a) in &acts { x.act(c0, from, op, a); }
        x.step_sender();
        x.l.manual = false;
        x.l.manual = false;
        x.l.finish(&cfg);
    });
    let mut l = x.l;
    if let Err(m) = res { for h in l.half.iter_mut() { h.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); } }
    let lines = l.lines("L", &f);
    pool::forget_on_panic(l);
    lines.into_iter().filter(|s| !s.contains("\"pk\":[]")).collect()
}

#[allow(unused_variables)]
fn level(rng: &mut Rng, idx: u64, w: u32, fw: u32, alloc: usize) -> Level {
    #[cfg(feature = "hc")]
    if idx % 4 != 3 {
        let mk = |rx: usize| hc::HcCfg {
            frame_win: fw.next_power_of_two(), packet_win: w, tx_rate: 2_000_000, tx_alloc: alloc, rx_alloc: rx, keepalive_ms: None,
        };
        return Level::Hc { a: mk(alloc), b: mk(alloc) };
    }
    let mut c = EpCfg::default();
    c.keepalive = rng.chance(0.5);
    let mut s = c.clone();
    s.alloc = alloc;
    c.psize = alloc;
    s.psize = alloc;
    Level::Ep { c, s }
}
