//! A deterministic server and clients on uflow's in-memory network (cfg uflow_verif)
#![allow(dead_code)]
pub use uflow::verif::{internal, net, rand, time};
pub use uflow::verif::internal::frame::serial::Serialize;
pub use uflow::verif::internal::frame as fr;
pub use uflow::{client, server, EndpointConfig, SendMode};
pub use std::net::SocketAddr;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Connect, Disconnect, Receive(Vec<u8>), Error(String) }

pub struct Sim {
    pub t: u64,
    pub delay: u64,
    pub server: server::Server,
    pub clients: Vec<client::Client>,
    /// What each client's application saw, with times
    pub cev: Vec<Vec<(u64, Ev)>>,
    /// What the server's application saw
    pub sev: Vec<(u64, SocketAddr, Ev)>,
    /// Every datagram sent
    pub wire: Vec<net::Datagram>,
    queue: Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)>,
    /// Decides the fate of a datagram: the delays of the copies which arrive
    pub fate: Box<dyn FnMut(&net::Datagram) -> Vec<u64>>,
}

pub fn set_ms(t: u64) { time::set_now_ns(t * 1_000_000) }

impl Sim {
    pub fn new(cfg: server::Config, delay: u64) -> Self {
        net::reset();
        rand::seed(7);
        set_ms(1000);
        let server = server::Server::bind("127.0.0.1:9000", cfg).unwrap();
        Sim { t: 1000, delay, server, clients: vec![], cev: vec![], sev: vec![], wire: vec![], queue: vec![], fate: Box::new(move |_| vec![delay]) }
    }

    pub fn connect(&mut self, cfg: client::Config) -> usize {
        let c = client::Client::connect(self.server.address(), cfg).unwrap();
        self.clients.push(c);
        self.cev.push(vec![]);
        self.pump();
        self.clients.len() - 1
    }

    pub fn addr(&self, i: usize) -> SocketAddr { self.clients[i].local_address() }

    /// A datagram which arrives at the next step
    pub fn inject(&mut self, from: SocketAddr, to: SocketAddr, data: &[u8]) { self.queue.push((self.t, from, to, data.to_vec())) }

    pub fn pump(&mut self) {
        for d in net::take_outbox() {
            for k in (self.fate)(&d) { self.queue.push((self.t + k, d.from, d.to, d.data.to_vec())) }
            self.wire.push(d);
        }
    }

    fn arrive(&mut self) {
        let t = self.t;
        let mut due: Vec<_> = vec![];
        let mut rest = vec![];
        for d in self.queue.drain(..) { if d.0 <= t { due.push(d) } else { rest.push(d) } }
        self.queue = rest;
        due.sort_by_key(|d| d.0);
        for (_, f, to, d) in due { net::deliver(f, to, &d); }
    }

    pub fn step(&mut self, dt: u64) {
        self.t += dt;
        set_ms(self.t);
        self.arrive();
        for i in 0..self.clients.len() { self.step_client(i) }
        self.step_server();
    }

    pub fn step_client(&mut self, i: usize) {
        let t = self.t;
        for e in self.clients[i].step() {
            self.cev[i].push((t, match e {
                client::Event::Connect => Ev::Connect,
                client::Event::Disconnect => Ev::Disconnect,
                client::Event::Receive(d) => Ev::Receive(d.to_vec()),
                client::Event::Error(e) => Ev::Error(format!("{:?}", e)),
            }));
        }
        self.pump();
    }

    pub fn step_server(&mut self) {
        let t = self.t;
        for e in self.server.step() {
            self.sev.push(match e {
                server::Event::Connect(a) => (t, a, Ev::Connect),
                server::Event::Disconnect(a) => (t, a, Ev::Disconnect),
                server::Event::Receive(a, d) => (t, a, Ev::Receive(d.to_vec())),
                server::Event::Error(a, e) => (t, a, Ev::Error(format!("{:?}", e))),
            });
        }
        self.pump();
    }

    pub fn run(&mut self, ms: u64, dt: u64) { let end = self.t + ms; while self.t < end { self.step(dt) } }

    pub fn sent(&mut self, to: usize, data: Vec<u8>, ch: usize, mode: SendMode) {
        let a = self.addr(to);
        self.server.client(&a).unwrap().borrow_mut().send(data.into_boxed_slice(), ch, mode);
    }

    pub fn csend(&mut self, i: usize, data: Vec<u8>, ch: usize, mode: SendMode) { self.clients[i].send(data.into_boxed_slice(), ch, mode) }

    pub fn server_received(&self, a: SocketAddr) -> Vec<Vec<u8>> {
        self.sev.iter().filter(|e| e.1 == a).filter_map(|e| if let Ev::Receive(d) = &e.2 { Some(d.clone()) } else { None }).collect()
    }

    pub fn client_received(&self, i: usize) -> Vec<Vec<u8>> {
        self.cev[i].iter().filter_map(|e| if let Ev::Receive(d) = &e.1 { Some(d.clone()) } else { None }).collect()
    }
}

pub fn parse(d: &[u8]) -> Option<fr::Frame> { fr::Frame::read(d) }

pub fn scfg(e: EndpointConfig) -> server::Config { server::Config { endpoint_config: e, ..Default::default() } }
pub fn ccfg(e: EndpointConfig) -> client::Config { client::Config { endpoint_config: e } }

/// A half connection driven directly
pub mod half {
    use super::*;
    pub struct Out(pub Vec<Vec<u8>>);
    impl internal::FrameSink for Out { fn send(&mut self, d: &[u8]) { self.0.push(d.to_vec()) } }
    impl internal::PacketSink for Out { fn send(&mut self, d: Box<[u8]>) { self.0.push(d.to_vec()) } }
    pub fn config() -> internal::Config {
        internal::Config {
            tx_frame_base_id: 100, rx_frame_base_id: 200, tx_frame_window_size: 4096, rx_frame_window_size: 4096,
            tx_packet_base_id: 300, rx_packet_base_id: 400, tx_packet_window_size: 4096, rx_packet_window_size: 4096,
            tx_bandwidth_limit: 2_000_000, tx_alloc_limit: 1_000_000, rx_alloc_limit: 1_000_000, keepalive_interval_ms: None,
        }
    }
    pub fn flush(h: &mut internal::HalfConnection) -> Vec<Vec<u8>> { let mut o = Out(vec![]); h.flush(&mut o); o.0 }
    pub fn receive(h: &mut internal::HalfConnection) -> Vec<Vec<u8>> { let mut o = Out(vec![]); h.receive(&mut o); o.0 }
    pub fn handle(h: &mut internal::HalfConnection, d: &[u8]) {
        match parse(d) {
            Some(fr::Frame::DataFrame(f)) => h.handle_data_frame(f),
            Some(fr::Frame::AckFrame(f)) => h.handle_ack_frame(f),
            Some(fr::Frame::SyncFrame(f)) => h.handle_sync_frame(f),
            _ => (),
        }
    }
    pub fn dg(channel_id: u8, sequence_id: u32, wl: u16, cl: u16, frag: u16, last: u16, data: Vec<u8>) -> fr::Datagram {
        fr::Datagram { channel_id, sequence_id, window_parent_lead: wl, channel_parent_lead: cl, fragment_id: frag, fragment_id_last: last, data: data.into_boxed_slice() }
    }
}
