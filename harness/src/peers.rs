//! The two kinds of connection endpoint the harness drives through one interface: public
//! Client/Server objects on the in-memory network (EP) and bare HalfConnection objects (HC).
use crate::heap::inside;
use std::net::SocketAddr;
use uflow::verif::{net, rand, time};
use uflow::SendMode;

pub const MODES: [SendMode; 4] = [SendMode::TimeSensitive, SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Phase { Pending, Active, Closed }

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Connect,
    Recv(Vec<u8>),
    Disconnect,
    Error(&'static str),
}

pub trait Peer {
    fn send(&mut self, data: Vec<u8>, ch: usize, mode: SendMode);
    fn flush(&mut self);
    fn step(&mut self) -> Vec<Out>;
    /// Datagrams emitted since the last call
    fn take_sent(&mut self) -> Vec<Vec<u8>>;
    /// Places a datagram from the other peer in the inbox
    fn deliver(&mut self, data: &[u8]);
    fn sbs(&self) -> usize;
    fn rtt(&self) -> Option<f64>;
    fn phase(&self) -> Phase;
    fn rate(&self) -> Option<f64> { None }
    fn rto(&self) -> Option<u64> { None }
    fn disconnect(&mut self, _now: bool) {}
    /// Processes the inbox without running step(), where that is possible
    fn absorb(&mut self) {}
    /// Whether send() would accept packets now
    fn accepts(&self) -> bool { self.phase() == Phase::Active }
}

pub fn set_ms(ms: u64) { time::set_now_ns(ms * 1_000_000); }
pub fn set_ns(ns: u64) { time::set_now_ns(ns); }

pub fn reset_env(seed: u64) {
    net::reset();
    rand::seed(seed);
    set_ms(0);
}

#[derive(Clone, Debug)]
pub struct EpCfg {
    pub send_rate: usize,
    pub recv_rate: usize,
    pub psize: usize,
    pub alloc: usize,
    pub keepalive: bool,
    pub keepalive_ms: u64,
    pub timeout_ms: u64,
}

impl Default for EpCfg {
    fn default() -> Self {
        EpCfg { send_rate: 2_000_000, recv_rate: 2_000_000, psize: 1_000_000, alloc: 1_000_000, keepalive: true, keepalive_ms: 5000, timeout_ms: 1 << 40 }
    }
}

impl EpCfg {
    pub fn build(&self) -> uflow::EndpointConfig {
        uflow::EndpointConfig {
            max_send_rate: self.send_rate,
            max_receive_rate: self.recv_rate,
            max_packet_size: self.psize,
            max_receive_alloc: self.alloc,
            keepalive: self.keepalive,
            keepalive_interval_ms: self.keepalive_ms,
            active_timeout_ms: self.timeout_ms,
        }
    }
}

pub fn cerr(e: uflow::client::ErrorType) -> &'static str {
    use uflow::client::ErrorType::*;
    match e { Timeout => "T", Version => "V", Config => "G", ServerFull => "F" }
}

pub fn serr(e: uflow::server::ErrorType) -> &'static str {
    use uflow::server::ErrorType::*;
    match e { Timeout => "T", Version => "V", Config => "G", ServerFull => "F" }
}

pub struct ClientPeer {
    pub c: uflow::client::Client,
    pub addr: SocketAddr,
    pub server: SocketAddr,
    pub closed: bool,
}

impl Peer for ClientPeer {
    fn send(&mut self, data: Vec<u8>, ch: usize, mode: SendMode) { inside(|| { let d = data.clone().into_boxed_slice(); self.c.send(d, ch, mode) }); }
    fn flush(&mut self) { inside(|| self.c.flush()); }
    fn step(&mut self) -> Vec<Out> {
        use uflow::client::Event;
        let r: Vec<Out> = inside(|| self.c.step().map(|e| match e {
            Event::Connect => Out::Connect,
            Event::Disconnect => Out::Disconnect,
            Event::Receive(d) => Out::Recv(d.into_vec()),
            Event::Error(e) => Out::Error(cerr(e)),
        }).collect());
        if r.iter().any(|e| matches!(e, Out::Disconnect | Out::Error(_))) { self.closed = true; }
        r
    }
    fn take_sent(&mut self) -> Vec<Vec<u8>> { take_from(self.addr) }
    fn deliver(&mut self, data: &[u8]) { net::deliver(self.server, self.addr, data); }
    fn sbs(&self) -> usize { self.c.send_buffer_size() }
    fn rtt(&self) -> Option<f64> { self.c.rtt_s() }
    fn phase(&self) -> Phase {
        if self.closed { Phase::Closed } else if self.c.is_active() { Phase::Active } else { Phase::Pending }
    }
    fn accepts(&self) -> bool { self.phase() != Phase::Closed }
    fn disconnect(&mut self, now: bool) { inside(|| if now { self.c.disconnect_now() } else { self.c.disconnect() }) }
}

pub struct ServerPeer {
    pub s: uflow::server::Server,
    pub addr: SocketAddr,
    pub client: SocketAddr,
    pub closed: bool,
    pub other: Vec<(SocketAddr, Out)>,
}

impl ServerPeer {
    fn rc(&self) -> Option<&std::rc::Rc<std::cell::RefCell<uflow::server::RemoteClient>>> { self.s.client(&self.client) }
}

impl Peer for ServerPeer {
    fn send(&mut self, data: Vec<u8>, ch: usize, mode: SendMode) {
        if let Some(c) = self.rc() { inside(|| { let d = data.clone().into_boxed_slice(); c.borrow_mut().send(d, ch, mode) }); }
    }
    fn flush(&mut self) { inside(|| self.s.flush()); }
    fn step(&mut self) -> Vec<Out> {
        use uflow::server::Event;
        let mut v = Vec::new();
        let evs: Vec<Event> = inside(|| self.s.step().collect());
        for e in evs {
            let (a, o) = match e {
                Event::Connect(a) => (a, Out::Connect),
                Event::Disconnect(a) => (a, Out::Disconnect),
                Event::Receive(a, d) => (a, Out::Recv(d.into_vec())),
                Event::Error(a, e) => (a, Out::Error(serr(e))),
            };
            if a == self.client { v.push(o) } else { self.other.push((a, o)) }
        }
        if v.iter().any(|e| matches!(e, Out::Disconnect | Out::Error(_))) { self.closed = true; }
        v
    }
    fn take_sent(&mut self) -> Vec<Vec<u8>> { take_from(self.addr) }
    fn deliver(&mut self, data: &[u8]) { net::deliver(self.client, self.addr, data); }
    fn sbs(&self) -> usize { self.rc().map_or(0, |c| c.borrow().send_buffer_size()) }
    fn rtt(&self) -> Option<f64> { self.rc().and_then(|c| c.borrow().rtt_s()) }
    fn phase(&self) -> Phase {
        if self.closed { Phase::Closed } else if self.rc().map_or(false, |c| c.borrow().is_active()) { Phase::Active } else { Phase::Pending }
    }
    fn disconnect(&mut self, now: bool) {
        if let Some(c) = self.rc() { inside(|| if now { c.borrow_mut().disconnect_now() } else { c.borrow_mut().disconnect() }) }
    }
}

fn take_from(addr: SocketAddr) -> Vec<Vec<u8>> {
    net::take_outbox().into_iter().filter(|d| d.from == addr).map(|d| d.data.into_vec()).collect()
}

pub const SERVER_ADDR: &str = "127.0.0.1:8888";

/// A connecting client and a server; the nonces decide the initial sequence numbers.
pub fn ep_pair(c: &EpCfg, s: &EpCfg, cnonce: u32, snonce: u32) -> (ClientPeer, ServerPeer) {
    let srv = inside(|| uflow::server::Server::bind(SERVER_ADDR, uflow::server::Config { endpoint_config: s.build(), enable_handshake_errors: true, ..Default::default() })).unwrap();
    rand::force_u32(cnonce);
    let cl = inside(|| uflow::client::Client::connect(SERVER_ADDR, uflow::client::Config { endpoint_config: c.build() })).unwrap();
    rand::force_u32(snonce);
    let ca = cl.local_address();
    let sa = srv.address();
    (ClientPeer { c: cl, addr: ca, server: sa, closed: false }, ServerPeer { s: srv, addr: sa, client: ca, closed: false, other: Vec::new() })
}

#[cfg(feature = "hc")]
pub mod hc {
    use super::*;
    use uflow::verif::internal as int;
    use int::frame::serial::Serialize;

    #[derive(Clone, Debug)]
    pub struct HcCfg {
        pub frame_win: u32,
        pub packet_win: u32,
        pub tx_rate: u32,
        pub tx_alloc: usize,
        pub rx_alloc: usize,
        pub keepalive_ms: Option<u64>,
    }

    pub struct HcPeer {
        pub h: int::HalfConnection,
        sent: Vec<Vec<u8>>,
        inbox: Vec<Vec<u8>>,
    }

    struct FS<'a>(&'a mut Vec<Vec<u8>>);
    impl<'a> int::FrameSink for FS<'a> {
        fn send(&mut self, d: &[u8]) { self.0.push(d.to_vec()); }
    }
    struct PS<'a>(&'a mut Vec<Out>);
    impl<'a> int::PacketSink for PS<'a> {
        fn send(&mut self, d: Box<[u8]>) { self.0.push(Out::Recv(d.into_vec())); }
    }

    impl HcPeer {
        pub fn new(c: &HcCfg, local: u32, remote: u32) -> Self {
            HcPeer {
                h: inside(|| int::HalfConnection::new(int::Config {
                    tx_frame_base_id: local,
                    rx_frame_base_id: remote,
                    tx_frame_window_size: c.frame_win,
                    rx_frame_window_size: c.frame_win,
                    tx_packet_base_id: local & 0xfffff,
                    rx_packet_base_id: remote & 0xfffff,
                    tx_packet_window_size: c.packet_win,
                    rx_packet_window_size: c.packet_win,
                    tx_bandwidth_limit: c.tx_rate,
                    tx_alloc_limit: c.tx_alloc,
                    rx_alloc_limit: c.rx_alloc,
                    keepalive_interval_ms: c.keepalive_ms,
                })),
                sent: Vec::new(),
                inbox: Vec::new(),
            }
        }
    }

    impl Peer for HcPeer {
        fn send(&mut self, data: Vec<u8>, ch: usize, mode: SendMode) { inside(|| { let d = data.clone().into_boxed_slice(); self.h.send(d, ch as u8, mode) }); }
        fn flush(&mut self) { inside(|| self.h.flush(&mut FS(&mut self.sent))); }
        // Same order of operations as Client::step() / Server::step() for an active connection
        fn step(&mut self) -> Vec<Out> {
            let mut v = Vec::new();
            inside(|| self.h.flush(&mut FS(&mut self.sent)));
            self.absorb();
            inside(|| {
            self.h.step();
            self.h.receive(&mut PS(&mut v));
            });
            v
        }
        fn take_sent(&mut self) -> Vec<Vec<u8>> { std::mem::take(&mut self.sent) }
        fn deliver(&mut self, data: &[u8]) { if data.len() <= 1472 { self.inbox.push(data.to_vec()) } }
        fn absorb(&mut self) {
            let inbox = std::mem::take(&mut self.inbox);
            inside(|| {
                for d in inbox {
                    match int::frame::Frame::read(&d) {
                        Some(int::frame::Frame::DataFrame(f)) => self.h.handle_data_frame(f),
                        Some(int::frame::Frame::SyncFrame(f)) => self.h.handle_sync_frame(f),
                        Some(int::frame::Frame::AckFrame(f)) => self.h.handle_ack_frame(f),
                        _ => (),
                    }
                }
            });
        }
        fn sbs(&self) -> usize { self.h.send_buffer_size() }
        fn rtt(&self) -> Option<f64> { self.h.rtt_s() }
        fn phase(&self) -> Phase { Phase::Active }
        fn rate(&self) -> Option<f64> { Some(self.h.verif_rate_probe().send_rate) }
        fn rto(&self) -> Option<u64> { self.h.verif_rate_probe().rto_ms }
    }
}
