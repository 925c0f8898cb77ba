//! One server, any number of clients and raw addresses on a simulated network. Records every
//! step, datagram, API call and event for the endpoint observer.
use crate::content::Registry;
use crate::heap::inside;
use crate::peers::*;
use crate::wire::{self, Frame};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;
use std::net::SocketAddr;
use std::rc::Rc;
use uflow::server::RemoteClient;
use uflow::verif::{net, rand};

pub struct SrvCfg { pub ep: EpCfg, pub max_total: usize, pub max_active: usize, pub errs: bool }

pub struct Cl {
    pub c: Option<uflow::client::Client>,
    pub cfg: EpCfg,
    pub addr: SocketAddr,
    pub nonce: u32,
    pub last_step: u64,
    pub last_rec: u64,
    pub state: (bool, usize),
    /// a terminal event was reported, or the connection was given up
    pub over: bool,
    dirty: bool,
    nframes: u32,
}

#[derive(Clone)]
pub struct Pkt { pub from: SocketAddr, pub to: SocketAddr, pub data: Vec<u8> }

pub struct World {
    pub srv: Option<uflow::server::Server>,
    pub scfg: SrvCfg,
    pub saddr: SocketAddr,
    /// by address index - 1; raw addresses have no client
    pub cls: Vec<Option<Cl>>,
    pub addrs: Vec<SocketAddr>,
    amap: HashMap<SocketAddr, usize>,
    /// application handles of server side connections, kept after the connection ended
    pub handles: Vec<Vec<Rc<RefCell<RemoteClient>>>>,
    pub staged_srv: Vec<Pkt>,
    pub staged_cl: Vec<Vec<Pkt>>,
    nonces: HashMap<u32, usize>,
    /// nonce of the latest SYN-ACK sent to an address, and of the latest SYN received from it
    pub sn: Vec<Option<u32>>,
    pub cn: Vec<Option<u32>>,
    srv_frames: Vec<u32>,
    pub reg: Registry,
    /// the empty packet submitted by side d to or from address a (at most one each)
    zeros: HashMap<(usize, usize), u32>,
    pub ev: Vec<String>,
    pub now: u64,
    srv_last: u64,
    srv_rec: u64,
    srv_state: (Vec<usize>, Vec<usize>, Vec<String>),
    srv_dirty: bool,
    pub connected: Vec<bool>,
    pub bytes: usize,
}

fn clip(x: u32) -> u32 { x.min(2_000_000_000) }

impl World {
    pub fn new(scfg: SrvCfg, seed: u64) -> Self {
        reset_env(seed);
        let srv = inside(|| uflow::server::Server::bind(SERVER_ADDR, uflow::server::Config {
            max_total_connections: scfg.max_total,
            max_active_connections: scfg.max_active,
            enable_handshake_errors: scfg.errs,
            endpoint_config: scfg.ep.build(),
        })).unwrap();
        let saddr = srv.address();
        World {
            srv: Some(srv), scfg, saddr, cls: Vec::new(), addrs: Vec::new(), amap: HashMap::new(), handles: Vec::new(), staged_srv: Vec::new(), staged_cl: Vec::new(),
            nonces: HashMap::new(), sn: Vec::new(), cn: Vec::new(), srv_frames: Vec::new(), reg: Default::default(), zeros: HashMap::new(), ev: Vec::new(), now: 0, srv_last: 0, srv_rec: 0,
            srv_state: (vec![usize::MAX], vec![], vec![]), srv_dirty: true, connected: Vec::new(), bytes: 0,
        }
    }

    pub fn set_time(&mut self, ms: u64) { self.now = ms; set_ms(ms); }

    pub fn na(&self) -> usize { self.addrs.len() }

    pub fn index(&self, a: &SocketAddr) -> Option<usize> { self.amap.get(a).copied() }

    fn add_addr(&mut self, addr: SocketAddr) -> usize {
        self.addrs.push(addr);
        let i = self.addrs.len();
        self.amap.insert(addr, i);
        self.handles.push(Vec::new());
        self.staged_cl.push(Vec::new());
        self.sn.push(None);
        self.cn.push(None);
        self.srv_frames.push(0);
        self.connected.push(false);
        i
    }

    pub fn add_raw(&mut self) -> usize {
        let addr: SocketAddr = format!("10.0.0.{}:7000", self.addrs.len() + 1).parse().unwrap();
        self.cls.push(None);
        self.add_addr(addr)
    }

    /// Client::connect()
    pub fn connect(&mut self, cfg: EpCfg, nonce: Option<u32>) -> (usize, Vec<Pkt>) {
        if let Some(n) = nonce { rand::force_u32(n); }
        let c = inside(|| uflow::client::Client::connect(SERVER_ADDR, uflow::client::Config { endpoint_config: cfg.build() })).unwrap();
        let addr = c.local_address();
        let a = self.add_addr(addr);
        let (r, p, w) = (cfg.recv_rate.min(2_000_000_000), cfg.psize.min(2_000_000_000), cfg.alloc.min(2_000_000_000));
        self.ev.push(format!("{{\"e\":\"p\",\"d\":1,\"a\":{},\"op\":\"connect\",\"t\":{},\"r\":{},\"p\":{},\"w\":{},\"to\":{}}}", a, self.now, r, p, w, cfg.timeout_ms.min(1_000_000_000)));
        self.cls.push(Some(Cl { c: Some(c), cfg, addr, nonce: 0, last_step: self.now, last_rec: self.now, state: (false, 0), over: false, dirty: true, nframes: 0 }));
        let out = self.collect();
        (a, out)
    }

    fn nidx(&mut self, n: u32) -> usize {
        let k = self.nonces.len() + 1;
        *self.nonces.entry(n).or_insert(k)
    }

    fn frame_fields(&mut self, d: usize, a: usize, emitted: bool, data: &[u8]) -> String {
        let z = data.len();
        let own = if (d == 0) == emitted { self.sn[a - 1] } else { self.cn[a - 1] };
        match wire::decode(data) {
            Some(Frame::Syn { version, nonce, rate, psize, alloc }) => {
                if emitted && d == 1 {
                    self.cn[a - 1] = Some(nonce);
                    if let Some(Some(c)) = self.cls.get_mut(a - 1) { c.nonce = nonce; }
                }
                format!("\"k\":\"N\",\"n\":{},\"m\":0,\"x\":{},\"r\":{},\"p\":{},\"w\":{},\"z\":{}", self.nidx(nonce), version, clip(rate), clip(psize), clip(alloc), z)
            }
            Some(Frame::SynAck { nonce_ack, nonce, rate, psize, alloc }) => {
                if emitted && d == 0 { self.sn[a - 1] = Some(nonce); self.srv_frames[a - 1] = 0; }
                format!("\"k\":\"B\",\"n\":{},\"m\":{},\"x\":0,\"r\":{},\"p\":{},\"w\":{},\"z\":{}", self.nidx(nonce), self.nidx(nonce_ack), clip(rate), clip(psize), clip(alloc), z)
            }
            Some(Frame::Ack { nonce_ack }) => format!("\"k\":\"A\",\"n\":0,\"m\":{},\"x\":0,\"z\":{}", self.nidx(nonce_ack), z),
            Some(Frame::Err { nonce_ack, code }) => format!("\"k\":\"E\",\"n\":0,\"m\":{},\"x\":{},\"z\":{}", self.nidx(nonce_ack), code, z),
            Some(Frame::Disc) => format!("\"k\":\"Q\",\"n\":0,\"m\":0,\"x\":0,\"z\":{}", z),
            Some(Frame::DiscAck) => format!("\"k\":\"q\",\"n\":0,\"m\":0,\"x\":0,\"z\":{}", z),
            Some(Frame::Data { seq, .. }) => {
                let rel = own.map_or(-1, |o| (seq.wrapping_sub(o) as i32).clamp(-1_000_000, 1_000_000));
                format!("\"k\":\"F\",\"n\":0,\"m\":0,\"x\":{},\"z\":{}", rel, z)
            }
            Some(Frame::Sync { .. }) => format!("\"k\":\"Y\",\"n\":0,\"m\":0,\"x\":0,\"z\":{}", z),
            Some(Frame::Acks { .. }) => format!("\"k\":\"K\",\"n\":0,\"m\":0,\"x\":0,\"z\":{}", z),
            None => {
                // A connection request which would be valid but for its size
                let u = z < wire::MAX_FRAME && z >= 22 && data[0] == 0 && wire::crc(&data[..z - 4]).to_be_bytes() == data[z - 4..];
                format!("\"k\":\"{}\",\"n\":0,\"m\":0,\"x\":0,\"z\":{}", if u { 'U' } else { 'X' }, z)
            }
        }
    }

    /// Takes and records everything emitted since the last call
    fn collect(&mut self) -> Vec<Pkt> {
        let mut v = Vec::new();
        for d in net::take_outbox() {
            let p = Pkt { from: d.from, to: d.to, data: d.data.into_vec() };
            self.bytes += p.data.len();
            let (dir, a) = if p.from == self.saddr { (0, self.index(&p.to)) } else { (1, self.index(&p.from)) };
            if let Some(a) = a {
                let f = self.frame_fields(dir, a, true, &p.data);
                self.ev.push(format!("{{\"e\":\"o\",\"d\":{},\"a\":{},{}}}", dir, a, f));
                if dir == 0 { self.srv_dirty = true; } else if let Some(Some(c)) = self.cls.get_mut(a - 1) { c.dirty = true; c.nframes += 1; }
            }
            v.push(p);
        }
        v
    }

    fn inputs(&mut self, d: usize, pkts: Vec<Pkt>) {
        for p in pkts {
            let a = if d == 0 { self.index(&p.from) } else { self.index(&p.to) };
            if let Some(a) = a {
                // Truncated by the receive buffer
                let n = p.data.len().min(wire::MAX_FRAME);
                let f = self.frame_fields(d, a, false, &p.data[..n]);
                self.ev.push(format!("{{\"e\":\"i\",\"d\":{},\"a\":{},{}}}", d, a, f));
            }
            net::deliver(p.from, p.to, &p.data);
        }
    }

    /// Server::step() after delivering everything staged for the server
    pub fn srv_step(&mut self) -> Vec<Pkt> {
        let pkts = std::mem::take(&mut self.staged_srv);
        if !pkts.is_empty() { self.srv_dirty = true; }
        self.inputs(0, pkts);
        let evs: Vec<uflow::server::Event> = match self.srv { Some(ref mut s) => inside(|| s.step().collect()), None => return Vec::new() };
        let out = self.collect();
        let mut s = String::new();
        for e in evs {
            use uflow::server::Event::*;
            let (addr, k, u) = match e {
                Connect(a) => (a, "C", 0),
                Disconnect(a) => (a, "D", 0),
                Receive(a, d) => (a, "R", self.identify(1, &a, &d)),
                Error(a, e) => (a, serr(e), 0),
            };
            let a = self.index(&addr).unwrap_or(0);
            if !s.is_empty() { s.push(','); }
            write!(s, "[{},\"{}\",{}]", a, k, u).unwrap();
            if a > 0 && k == "C" {
                self.connected[a - 1] = true;
                let h = self.srv.as_ref().unwrap().client(&addr).cloned();
                if let Some(h) = h { self.handles[a - 1].push(h); }
            }
            if a > 0 && k != "C" && k != "R" { self.connected[a - 1] = false; }
        }
        let srv = self.srv.as_ref().unwrap();
        let mut tr = Vec::new();
        let mut ac = Vec::new();
        for (i, a) in self.addrs.iter().enumerate() {
            if let Some(c) = srv.client(a) {
                tr.push(i + 1);
                if c.borrow().is_active() { ac.push(i + 1); }
            }
        }
        let bs: Vec<String> = (1..=self.na()).map(|a| self.srv_sbs(a).to_string()).collect();
        let st = (tr, ac, bs);
        if self.srv_dirty || !s.is_empty() || st != self.srv_state || self.now - self.srv_rec >= 1000 {
            self.ev.push(format!("{{\"e\":\"x\",\"d\":0,\"a\":0,\"t\":{},\"pt\":{},\"v\":[{}],\"tr\":{:?},\"ac\":{:?},\"b\":[{}]}}", self.now, self.srv_last, s, st.0, st.1, st.2.join(",")));
            self.srv_state = st;
            self.srv_dirty = false;
            self.srv_rec = self.now;
        }
        self.srv_last = self.now;
        out
    }

    /// uid of a packet which arrived at the server
    fn identify(&self, d: usize, addr: &SocketAddr, data: &[u8]) -> u32 {
        if data.is_empty() {
            return self.index(addr).and_then(|a| self.zeros.get(&(d, a)).copied()).unwrap_or(0);
        }
        self.reg.identify(data, &mut 0)
    }

    pub fn srv_sbs(&self, a: usize) -> usize {
        self.srv.as_ref().and_then(|s| s.client(&self.addrs[a - 1])).map_or(0, |c| c.borrow().send_buffer_size())
    }

    pub fn cl_step(&mut self, a: usize) -> Vec<Pkt> {
        let pkts = std::mem::take(&mut self.staged_cl[a - 1]);
        if self.cls[a - 1].as_ref().map_or(true, |c| c.c.is_none()) { return Vec::new(); }
        if !pkts.is_empty() { self.cls[a - 1].as_mut().unwrap().dirty = true; }
        self.inputs(1, pkts);
        let c = self.cls[a - 1].as_mut().unwrap().c.as_mut().unwrap();
        let evs: Vec<uflow::client::Event> = inside(|| c.step().collect());
        let out = self.collect();
        let mut s = String::new();
        for e in evs {
            use uflow::client::Event::*;
            let (k, u) = match e {
                Connect => ("C", 0),
                Disconnect => ("D", 0),
                Receive(d) => ("R", if d.is_empty() { self.zeros.get(&(0, a)).copied().unwrap_or(0) } else { self.reg.identify(&d, &mut 0) }),
                Error(e) => (cerr(e), 0),
            };
            if !s.is_empty() { s.push(','); }
            write!(s, "[{},\"{}\",{}]", a, k, u).unwrap();
            if k != "C" && k != "R" { self.cls[a - 1].as_mut().unwrap().over = true; }
        }
        let now = self.now;
        let c = self.cls[a - 1].as_mut().unwrap();
        let cc = c.c.as_ref().unwrap();
        let st = (cc.is_active(), cc.send_buffer_size());
        if c.dirty || !s.is_empty() || st != c.state || now - c.last_rec >= 1000 {
            self.ev.push(format!("{{\"e\":\"x\",\"d\":1,\"a\":{},\"t\":{},\"pt\":{},\"v\":[{}],\"h\":{},\"b\":{}}}", a, now, c.last_step, s, st.0 as u8, st.1));
            c.state = st;
            c.dirty = false;
            c.last_rec = now;
        }
        c.last_step = now;
        out
    }

    fn op(&mut self, d: usize, a: usize, op: &str, u: u32, m: usize) {
        if op == "old" || op == "sendx" { return; }
        self.ev.push(format!("{{\"e\":\"p\",\"d\":{},\"a\":{},\"op\":\"{}\",\"t\":{},\"u\":{},\"m\":{},\"z\":{}}}", d, a, op, self.now, u, m, if u > 0 { self.reg.data[u as usize - 1].len() } else { 0 }));
    }

    /// d = 1: by client `a`; d = 0: by the server, to address `a` (through the newest handle, or an
    /// `old` one)
    pub fn send(&mut self, d: usize, a: usize, ch: usize, mode: usize, len: usize) {
        let max = if d == 1 { self.cls[a - 1].as_ref().map_or(0, |c| c.cfg.psize) } else { self.scfg.ep.psize };
        let len = if len == 0 && !self.zeros.contains_key(&(d, a)) { 0 } else { len.min(max).max(8) };
        if max < 8 { return; }
        if d == 1 {
            if self.cls[a - 1].as_ref().map_or(true, |c| c.c.is_none()) { return; }
            let (u, data) = self.reg.add(77, len);
            if len == 0 { self.zeros.insert((d, a), u); }
            self.op(1, a, "send", u, mode);
            let c = self.cls[a - 1].as_mut().unwrap().c.as_mut().unwrap();
            inside(|| { let d = data.clone().into_boxed_slice(); c.send(d, ch, MODES[mode]) });
        } else if let Some(h) = self.handles[a - 1].last().cloned() {
            let (u, data) = self.reg.add(77, len);
            if len == 0 { self.zeros.insert((d, a), u); }
            let live = h.borrow().is_active();
            self.op(0, a, if live { "send" } else { "sendx" }, u, mode);
            inside(|| { let d = data.clone().into_boxed_slice(); h.borrow_mut().send(d, ch, MODES[mode]) });
        }
        self.srv_dirty = true;
        if let Some(Some(c)) = self.cls.get_mut(a - 1) { c.dirty = true; }
    }

    pub fn disconnect(&mut self, d: usize, a: usize, now: bool) {
        let name = if now { "now" } else { "disc" };
        if d == 1 {
            if self.cls[a - 1].as_ref().map_or(true, |c| c.c.is_none()) { return; }
            self.op(1, a, name, 0, 0);
            let c = self.cls[a - 1].as_mut().unwrap().c.as_mut().unwrap();
            inside(|| if now { c.disconnect_now() } else { c.disconnect() });
            self.cls[a - 1].as_mut().unwrap().dirty = true;
        } else if let Some(h) = self.handles[a - 1].last().cloned() {
            let live = h.borrow().is_active();
            self.op(0, a, if live { name } else { "old" }, 0, 0);
            inside(|| if now { h.borrow_mut().disconnect_now() } else { h.borrow_mut().disconnect() });
            self.srv_dirty = true;
        }
    }

    /// Uses a handle of a connection which has ended already
    pub fn poke_old(&mut self, a: usize, what: u64) {
        let n = self.handles[a - 1].len();
        for h in &self.handles[a - 1][..n] {
            if h.borrow().is_active() { continue; }
            inside(|| match what {
                0 => h.borrow_mut().disconnect(),
                1 => h.borrow_mut().disconnect_now(),
                _ => h.borrow_mut().send(vec![0xee; 8].into_boxed_slice(), 0, MODES[3]),
            });
        }
        self.op(0, a, "old", 0, 0);
    }

    /// Server::drop()
    pub fn srv_drop(&mut self, a: usize) {
        let addr = self.addrs[a - 1];
        self.op(0, a, "drop", 0, 0);
        if let Some(ref mut s) = self.srv { inside(|| s.drop(&addr)); }
        self.connected[a - 1] = false;
        self.srv_dirty = true;
    }

    /// Drops the Client object
    pub fn cl_drop(&mut self, a: usize) {
        if self.cls[a - 1].as_ref().map_or(true, |c| c.c.is_none()) { return; }
        self.op(1, a, "drop", 0, 0);
        let c = self.cls[a - 1].as_mut().unwrap();
        c.c = None;
        c.over = true;
    }

    pub fn srv_flush(&mut self) -> Vec<Pkt> {
        if let Some(ref mut s) = self.srv { inside(|| s.flush()); }
        self.collect()
    }

    pub fn cl_flush(&mut self, a: usize) -> Vec<Pkt> {
        if let Some(Some(c)) = self.cls.get_mut(a - 1) { if let Some(ref mut c) = c.c { inside(|| c.flush()); } }
        self.collect()
    }

    pub fn line(&self, job: &str, extra: &str) -> String {
        let s = &self.scfg;
        format!("{{\"fam\":\"E\",\"job\":\"{}\",\"na\":{},\"mt\":{},\"ma\":{},\"errs\":{},\"sr\":{},\"sp\":{},\"sw\":{},\"sto\":{},{},\"ev\":[{}]}}",
            job, self.na(), s.max_total, s.max_active, s.errs as u8, s.ep.recv_rate.min(2_000_000_000), s.ep.psize.min(2_000_000_000), s.ep.alloc.min(2_000_000_000),
            s.ep.timeout_ms.min(1_000_000_000), extra, self.ev.join(","))
    }
}
