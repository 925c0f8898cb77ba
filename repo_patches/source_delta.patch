From e17bfa4c494e029ab07db5d879d5a278b17dfb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 01/29] verif: cfg(uflow_verif) hooks: virtual clock, seeded
 random, in-memory net, internals re-export

---
 src/client/mod.rs           |   4 +
 src/frame/serial/mod.rs     |   3 +
 src/half_connection/emit.rs |   3 +
 src/half_connection/mod.rs  |  17 ++
 src/lib.rs                  |   4 +
 src/server/mod.rs           |   4 +
 src/server/remote_client.rs |   3 +
 src/udp_frame_sink.rs       |   3 +
 src/verif.rs                | 342 ++++++++++++++++++++++++++++++++++++
 9 files changed, 383 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..6b9f628 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1,4 +1,6 @@
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(not(uflow_verif))]
 use std::time;
 
 use crate::CHANNEL_COUNT;
@@ -12,6 +14,8 @@ use crate::MAX_PACKET_WINDOW_SIZE;
 use crate::PROTOCOL_VERSION;
 use crate::SendMode;
 use crate::udp_frame_sink::UdpFrameSink;
+#[cfg(uflow_verif)]
+use crate::verif::{net, rand, time};
 
 static HANDSHAKE_RESEND_INTERVAL_MS: u64 = 2000;
 static HANDSHAKE_RESEND_COUNT: u8 = 10;
diff --git a/src/frame/serial/mod.rs b/src/frame/serial/mod.rs
index 255772e..9abe621 100644
--- a/src/frame/serial/mod.rs
+++ b/src/frame/serial/mod.rs
@@ -3,7 +3,10 @@ use crate::MAX_FRAME_SIZE;
 use super::*;
 
 mod build;
+#[cfg(not(uflow_verif))]
 mod crc;
+#[cfg(uflow_verif)]
+pub mod crc;
 
 pub use build::DataFrameBuilder;
 pub use build::AckFrameBuilder;
diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index b01620a..8b8c762 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -6,6 +6,9 @@ use crate::MAX_FRAME_SIZE;
 use crate::MAX_FRAME_WINDOW_SIZE;
 use crate::packet_id;
 
+#[cfg(uflow_verif)]
+use crate::verif::rand;
+
 use super::pending_packet;
 use super::frame_queue;
 
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..038acec 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -2,7 +2,10 @@
 use crate::SendMode;
 use crate::frame;
 
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
 
 mod emit;
 mod frame_ack_queue;
@@ -15,7 +18,10 @@ mod pending_queue;
 mod recv_rate_set;
 mod reorder_buffer;
 mod resend_queue;
+#[cfg(not(uflow_verif))]
 mod send_rate;
+#[cfg(uflow_verif)]
+pub mod send_rate;
 
 #[cfg(test)]
 mod packet_tests;
@@ -432,6 +438,17 @@ impl HalfConnection {
     }
 }
 
+#[cfg(all(uflow_verif, not(uflow_verif_min)))]
+impl HalfConnection {
+    pub fn verif_rate_probe(&self) -> crate::verif::internal::RateProbe {
+        crate::verif::internal::RateProbe {
+            send_rate: self.send_rate_comp.send_rate() as f64,
+            rtt_s: self.send_rate_comp.rtt_s(),
+            rto_ms: self.send_rate_comp.rto_ms(),
+        }
+    }
+}
+
 // Internal Rc objects are unique to this object
 unsafe impl Send for HalfConnection {}
 
diff --git a/src/lib.rs b/src/lib.rs
index eea23e7..1b00adb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! `uflow` is a non-blocking, connection-based layer over UDP that provides an ordered and
 //! drop-tolerant packet streaming interface for real-time applications (e.g. games). It manages
@@ -260,6 +261,9 @@
 //! Servers may also call [`Server::drop()`](server::Server::drop), which sends no further packets
 //! and forgets the connection immediately. This will generate a timeout error on the client.
 
+#[cfg(uflow_verif)]
+pub mod verif;
+
 mod half_connection;
 mod frame;
 mod packet_id;
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..daff9f5 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -1,7 +1,9 @@
 use std::cell::RefCell;
 use std::collections::HashMap;
+#[cfg(not(uflow_verif))]
 use std::net;
 use std::rc::Rc;
+#[cfg(not(uflow_verif))]
 use std::time;
 
 use crate::EndpointConfig;
@@ -13,6 +15,8 @@ use crate::MAX_FRAME_WINDOW_SIZE;
 use crate::MAX_PACKET_WINDOW_SIZE;
 use crate::PROTOCOL_VERSION;
 use crate::udp_frame_sink::UdpFrameSink;
+#[cfg(uflow_verif)]
+use crate::verif::{net, rand, time};
 
 mod event_queue;
 mod remote_client;
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 301611b..668d6eb 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -1,4 +1,7 @@
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 
 use crate::half_connection::HalfConnection;
 use crate::SendMode;
diff --git a/src/udp_frame_sink.rs b/src/udp_frame_sink.rs
index e9a26d5..99e80ea 100644
--- a/src/udp_frame_sink.rs
+++ b/src/udp_frame_sink.rs
@@ -1,7 +1,10 @@
 
 use crate::half_connection;
 
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 
 // TODO: A Result<usize, std::io::Error> stored here could be used to forward errors to
 // client/server step/flush after the FrameSink has been used.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7891ff0
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,342 @@
+//! Verification hooks (only compiled with `--cfg uflow_verif`): a virtual clock, a seeded random
+//! source and an in-memory UDP network which replace `std::time`, `rand` and `std::net` inside the
+//! crate, plus re-exports of internals which the external harness drives directly. All state is
+//! thread-local, so that independent simulations may run on different threads.
+
+#![allow(missing_docs)]
+
+/// Stand-in for the parts of `std::time` used by this crate.
+pub mod time {
+    use std::cell::Cell;
+
+    pub use std::time::Duration;
+
+    thread_local!(static NOW_NS: Cell<u64> = Cell::new(0));
+
+    pub fn now_ns() -> u64 {
+        NOW_NS.with(|now| now.get())
+    }
+
+    pub fn set_now_ns(now_ns: u64) {
+        NOW_NS.with(|now| now.set(now_ns));
+    }
+
+    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord,Hash)]
+    pub struct Instant(u64);
+
+    impl Instant {
+        pub fn now() -> Self {
+            Self(now_ns())
+        }
+
+        pub fn duration_since(&self, earlier: Instant) -> Duration {
+            Duration::from_nanos(self.0.saturating_sub(earlier.0))
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
+            self.duration_since(earlier)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
+            self.0.checked_sub(earlier.0).map(Duration::from_nanos)
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+
+        pub fn checked_add(&self, d: Duration) -> Option<Self> {
+            self.0.checked_add(d.as_nanos() as u64).map(Self)
+        }
+
+        pub fn checked_sub(&self, d: Duration) -> Option<Self> {
+            self.0.checked_sub(d.as_nanos() as u64).map(Self)
+        }
+    }
+
+    impl std::ops::Sub<Instant> for Instant {
+        type Output = Duration;
+
+        fn sub(self, rhs: Instant) -> Duration {
+            self.duration_since(rhs)
+        }
+    }
+
+    impl std::ops::Add<Duration> for Instant {
+        type Output = Instant;
+
+        fn add(self, rhs: Duration) -> Instant {
+            Instant(self.0 + rhs.as_nanos() as u64)
+        }
+    }
+
+    impl std::ops::Sub<Duration> for Instant {
+        type Output = Instant;
+
+        fn sub(self, rhs: Duration) -> Instant {
+            Instant(self.0 - rhs.as_nanos() as u64)
+        }
+    }
+
+    impl std::ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, rhs: Duration) {
+            self.0 += rhs.as_nanos() as u64;
+        }
+    }
+}
+
+/// Stand-in for the parts of `rand` used by this crate.
+pub mod rand {
+    use std::cell::{Cell,RefCell};
+    use std::collections::VecDeque;
+
+    thread_local!(static STATE: Cell<u64> = Cell::new(0x9e3779b97f4a7c15));
+    thread_local!(static FORCED_U32: RefCell<VecDeque<u32>> = RefCell::new(VecDeque::new()));
+
+    pub fn seed(seed: u64) {
+        STATE.with(|state| state.set(seed));
+        FORCED_U32.with(|queue| queue.borrow_mut().clear());
+    }
+
+    /// Enqueues a value to be returned by the next call to `random::<u32>()`
+    pub fn force_u32(value: u32) {
+        FORCED_U32.with(|queue| queue.borrow_mut().push_back(value));
+    }
+
+    // splitmix64
+    pub fn next_u64() -> u64 {
+        STATE.with(|state| {
+            let s = state.get().wrapping_add(0x9e3779b97f4a7c15);
+            state.set(s);
+            let mut z = s;
+            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
+            z ^ (z >> 31)
+        })
+    }
+
+    pub trait Random {
+        fn random() -> Self;
+    }
+
+    impl Random for bool {
+        fn random() -> Self {
+            next_u64() & 1 != 0
+        }
+    }
+
+    impl Random for u8 {
+        fn random() -> Self {
+            next_u64() as u8
+        }
+    }
+
+    impl Random for u16 {
+        fn random() -> Self {
+            next_u64() as u16
+        }
+    }
+
+    impl Random for u32 {
+        fn random() -> Self {
+            if let Some(value) = FORCED_U32.with(|queue| queue.borrow_mut().pop_front()) {
+                value
+            } else {
+                next_u64() as u32
+            }
+        }
+    }
+
+    impl Random for u64 {
+        fn random() -> Self {
+            next_u64()
+        }
+    }
+
+    pub fn random<T: Random>() -> T {
+        T::random()
+    }
+}
+
+/// Stand-in for the parts of `std::net` used by this crate. Datagrams sent through a `UdpSocket`
+/// are placed in an outbox; nothing is delivered unless the harness calls `deliver()`.
+pub mod net {
+    use std::cell::{Cell,RefCell};
+    use std::collections::{HashMap,VecDeque};
+    use std::io;
+
+    pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6, ToSocketAddrs};
+
+    #[derive(Clone,Debug)]
+    pub struct Datagram {
+        pub time_ns: u64,
+        pub from: SocketAddr,
+        pub to: SocketAddr,
+        pub data: Box<[u8]>,
+    }
+
+    #[derive(Default)]
+    struct Network {
+        next_port: u16,
+        inboxes: HashMap<SocketAddr, VecDeque<(SocketAddr, Box<[u8]>)>>,
+        outbox: VecDeque<Datagram>,
+    }
+
+    thread_local!(static NETWORK: RefCell<Network> = RefCell::new(Network::default()));
+
+    /// Forgets all sockets and datagrams
+    pub fn reset() {
+        NETWORK.with(|network| *network.borrow_mut() = Network::default());
+    }
+
+    /// Removes and returns all datagrams sent so far
+    pub fn take_outbox() -> Vec<Datagram> {
+        NETWORK.with(|network| network.borrow_mut().outbox.drain(..).collect())
+    }
+
+    /// Places a datagram in the inbox of the socket bound to `to`. Returns `false` if there is no
+    /// such socket.
+    pub fn deliver(from: SocketAddr, to: SocketAddr, data: &[u8]) -> bool {
+        NETWORK.with(|network| {
+            if let Some(inbox) = network.borrow_mut().inboxes.get_mut(&to) {
+                inbox.push_back((from, data.into()));
+                true
+            } else {
+                false
+            }
+        })
+    }
+
+    #[derive(Debug)]
+    pub struct UdpSocket {
+        local_addr: SocketAddr,
+        peer_addr: Cell<Option<SocketAddr>>,
+    }
+
+    impl UdpSocket {
+        pub fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
+            let mut addr = addr.to_socket_addrs()?.next()
+                .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no address"))?;
+
+            if addr.ip().is_unspecified() {
+                addr.set_ip(match addr {
+                    SocketAddr::V4(_) => IpAddr::V4(Ipv4Addr::LOCALHOST),
+                    SocketAddr::V6(_) => IpAddr::V6(Ipv6Addr::LOCALHOST),
+                });
+            }
+
+            NETWORK.with(|network| {
+                let mut network = network.borrow_mut();
+
+                if addr.port() == 0 {
+                    loop {
+                        addr.set_port(40000 + network.next_port % 20000);
+                        network.next_port = network.next_port.wrapping_add(1);
+                        if !network.inboxes.contains_key(&addr) {
+                            break;
+                        }
+                    }
+                } else if network.inboxes.contains_key(&addr) {
+                    return Err(io::Error::new(io::ErrorKind::AddrInUse, "address in use"));
+                }
+
+                network.inboxes.insert(addr, VecDeque::new());
+
+                Ok(Self {
+                    local_addr: addr,
+                    peer_addr: Cell::new(None),
+                })
+            })
+        }
+
+        pub fn set_nonblocking(&self, _nonblocking: bool) -> io::Result<()> {
+            Ok(())
+        }
+
+        pub fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
+            self.peer_addr.set(addr.to_socket_addrs()?.next());
+            Ok(())
+        }
+
+        pub fn local_addr(&self) -> io::Result<SocketAddr> {
+            Ok(self.local_addr)
+        }
+
+        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+            self.peer_addr.get().ok_or_else(|| io::Error::new(io::ErrorKind::NotConnected, "not connected"))
+        }
+
+        pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addr: A) -> io::Result<usize> {
+            let to = addr.to_socket_addrs()?.next()
+                .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no address"))?;
+
+            NETWORK.with(|network| {
+                network.borrow_mut().outbox.push_back(Datagram {
+                    time_ns: super::time::now_ns(),
+                    from: self.local_addr,
+                    to,
+                    data: data.into(),
+                });
+            });
+
+            Ok(data.len())
+        }
+
+        pub fn send(&self, data: &[u8]) -> io::Result<usize> {
+            self.send_to(data, self.peer_addr()?)
+        }
+
+        pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+            NETWORK.with(|network| {
+                let mut network = network.borrow_mut();
+                if let Some(inbox) = network.inboxes.get_mut(&self.local_addr) {
+                    while let Some((from, data)) = inbox.pop_front() {
+                        // A connected socket only receives datagrams from its peer
+                        if self.peer_addr.get().map_or(true, |peer_addr| peer_addr == from) {
+                            let size = data.len().min(buf.len());
+                            buf[..size].copy_from_slice(&data[..size]);
+                            return Ok((size, from));
+                        }
+                    }
+                }
+                Err(io::Error::from(io::ErrorKind::WouldBlock))
+            })
+        }
+
+        pub fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
+            self.recv_from(buf).map(|(size, _)| size)
+        }
+    }
+
+    impl Drop for UdpSocket {
+        fn drop(&mut self) {
+            let _ = NETWORK.try_with(|network| {
+                if let Ok(mut network) = network.try_borrow_mut() {
+                    network.inboxes.remove(&self.local_addr);
+                }
+            });
+        }
+    }
+}
+
+/// Re-exports of crate internals (left out with `--cfg uflow_verif_min`)
+#[cfg(not(uflow_verif_min))]
+pub mod internal {
+    pub mod frame {
+        pub use crate::frame::*;
+    }
+
+    pub use crate::half_connection::{Config, FrameSink, HalfConnection, PacketSink};
+    pub use crate::half_connection::send_rate::{FeedbackData, SendRateComp};
+
+    pub fn crc(data: &[u8]) -> u32 {
+        crate::frame::serial::crc::compute(data)
+    }
+
+    /// TFRC state of a connection
+    pub struct RateProbe {
+        pub send_rate: f64,
+        pub rtt_s: Option<f64>,
+        pub rto_ms: Option<u64>,
+    }
+}
-- 
2.43.0


From 0127f21d3c56015df990679b9e53bdcc8457a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 02/29] fix: do not panic when delivering a packet that
 exceeded the receive allocation

A data-less placeholder is queued for a packet which would exceed max_receive_alloc;
receive() unwrapped its data, so any connected peer could crash the endpoint.
---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..116dd83 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // Packets which exceeded the receive allocation carry no data
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From f2404ceac38b0829f372504901c4c5101cf982b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 03/29] fix: discard stale fragments from the pending queue,
 not the resend queue

When the peer's acknowledgement moved past a packet whose fragments were still waiting
for their first transmission, emit_data_frames() popped the resend queue instead of the
pending queue and looped forever on the same entry (losing resend entries on the way).
---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 038acec..be99ed2 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -409,7 +409,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -426,7 +426,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From ae052091c2b6fefaa5a4cd30e4ef76188cf027cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 04/29] fix: ignore acknowledgements whose packet window base
 is not a packet id

The field is 32 bits on the wire; with bits above the 20-bit id set, acknowledge()
ran past next_id and unwrapped an empty window entry.
---
 src/half_connection/packet_sender.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..46351ef 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -240,6 +240,10 @@ impl PacketSender {
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
+        if !packet_id::is_valid(receiver_base_id) {
+            return;
+        }
+
         let receiver_delta = packet_id::sub(receiver_base_id, self.base_id);
         let span = packet_id::sub(self.next_id, self.base_id);
 
-- 
2.43.0


From 9c9a1581af729bd6848f2be7c38b06d83e1fd913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 05/29] fix: ignore sync frames whose next packet id is not a
 packet id

The field is 32 bits on the wire; with bits above the 20-bit id set, resynchronize()
hit a debug assertion or never terminated.
---
 src/half_connection/packet_receiver/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 116dd83..ba6aac0 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -409,7 +409,9 @@ impl PacketReceiver {
     // comes first. Any incomplete or dropped packets are skipped, and as a result, the sender must
     // ensure that all reliable packets have been received in full prior to issuing the request.
     pub fn resynchronize(&mut self, sender_next_id: u32) {
-        debug_assert!(packet_id::is_valid(sender_next_id));
+        if !packet_id::is_valid(sender_next_id) {
+            return;
+        }
 
         let base_id = self.base_id;
         let sender_delta = packet_id::sub(sender_next_id, base_id);
-- 
2.43.0


From c82b1bac74fb16cb38ec4d26a559ecc5ef1b29d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 06/29] fix: never advance the receive window past an
 undelivered packet

A peer sending inconsistent window/channel parent leads could make receive() advance the
window past a packet still awaiting delivery, tripping debug assertions or leaving stale
state behind.
---
 src/half_connection/packet_receiver/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index ba6aac0..07fd86b 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -385,11 +385,16 @@ impl PacketReceiver {
                     let window_parent_lead = window_entry.window_parent_lead as u32;
                     let window_delta = packet_id::sub(sequence_id, new_base_id);
 
+                    if self.data_flags[flags_index] & flag_bit != 0 {
+                        // This packet awaits delivery. A well-behaved sender's parent leads never
+                        // cause this packet to be surpassed, so cease to advance the window
+                        break;
+                    }
+
                     if window_parent_lead == 0 || window_parent_lead > window_delta {
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
                         // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From 2e2c211f504a58d8b3de81d5fb66f7d368a5c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 07/29] fix: keep the newest receive rate entry when the RTT
 rounds to zero

With an RTT estimate below 0.5 ms rate_limited_update() discarded the entry it had just
added, and max() of the empty set panicked.
---
 src/half_connection/recv_rate_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..fd0f282 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -59,7 +59,7 @@ impl RecvRateSet {
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+        self.entries.retain(|e| now_ms - e.timestamp_ms <= 2 * rtt_ms);
 
         return self.max();
     }
-- 
2.43.0


From 5739d9332b5a490550ac13ba78880d9092f34d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 08/29] fix: bound the bisection for the inverse throughput
 equation

For targets that no loss rate in (0, 1) reaches to within 5% (small rates, large RTTs)
the bisection never terminated and step() hung.
---
 src/half_connection/send_rate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..f6fd8c2 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -33,7 +33,11 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
     let mut a = 0.0;
     let mut b = 1.0;
 
-    loop {
+    // The target may not be attainable to within the allowed error, e.g. if it is less than the
+    // throughput at p = 1, or so small that delta is zero
+    const MAX_ITERATIONS: usize = 64;
+
+    for _ in 0 .. MAX_ITERATIONS {
         let c = (b + a)/2.0;
 
         let rate = eval_tcp_throughput(rtt, c);
@@ -56,6 +60,8 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
             return c;
         }
     }
+
+    return (b + a)/2.0;
 }
 
 #[derive(Debug,PartialEq)]
-- 
2.43.0


From e7ee93217188409aae4d95664ef9dda479961589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 09/29] fix: avoid overflow in send rate and RTO computations
 at extreme rates

A send rate of zero (peer advertises max_receive_rate 0) made the RTO infinite and the
no-feedback deadline overflow; rates above 2^31 B/s (or an RTT rounding to zero) overflowed
when doubled.
---
 src/half_connection/send_rate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index f6fd8c2..0ee700f 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -258,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -328,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
@@ -386,7 +386,7 @@ impl SendRateComp {
 
     fn update_rto(&mut self, rtt_s: f64, send_rate: u32) -> f64 {
         // See section 4.3 step 3 and section 4.4 step 2
-        let rto_s = (4.0*rtt_s).max((2*MSS) as f64 / send_rate as f64);
+        let rto_s = (4.0*rtt_s).max((2*MSS) as f64 / send_rate.max(1) as f64);
         self.rto_ms = Some(s_to_ms(rto_s));
         return rto_s;
     }
-- 
2.43.0


From 2a950750624ff15b71dcba33f8e422917b1a6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 10/29] fix: drop a debug assertion that any idle sender
 without feedback violates

When the first frame is never acknowledged and the no-feedback timer expires twice
without a send in between, the assertion fired and step() panicked.
---
 src/half_connection/send_rate.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 0ee700f..0cd0c0a 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -336,7 +336,6 @@ impl SendRateComp {
                     }
                 } else {
                     // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
 
                     // Halve send rate every RTO, subject to minimum
                     self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
-- 
2.43.0


From 5428bc47b9df0679a550e97dcbc1faef7eac9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 11/29] fix: keep the send rate within its bounds when the
 no-feedback timer expires

In the throughput equation phase an expiry could set the rate above the configured
ceiling (or raise it), or below the s/64 floor. The initial rate and the slow start floor
ignored ceilings below them, too.
---
 src/half_connection/send_rate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 0cd0c0a..2990e03 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -130,7 +130,7 @@ impl SendRateComp {
             nofeedback_idle: false,
 
             mode: SendRateMode::AwaitSend,
-            send_rate: MSS as u32,
+            send_rate: (MSS as u32).min(max_send_rate),
             max_send_rate: max_send_rate,
 
             recv_rate_set: recv_rate_set::RecvRateSet::new(),
@@ -332,13 +332,13 @@ impl SendRateComp {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
-                        self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                        self.send_rate = (self.send_rate/2).max(MINIMUM_RATE).min(self.send_rate);
                     }
                 } else {
                     // In slow start, but no feedback has been received.
 
                     // Halve send rate every RTO, subject to minimum
-                    self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                    self.send_rate = (self.send_rate/2).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             SendRateMode::ThroughputEqn(ref mut state) => {
@@ -353,7 +353,7 @@ impl SendRateComp {
                     let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    self.send_rate = state.send_rate_tcp.min(new_limit).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             _ => panic!()
-- 
2.43.0


From 32e4f1183dda1a12babd4906863ddf1d843b2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 12/29] fix: do not assert that a sent packet fits the peer's
 receive allocation

The limit is chosen by the peer (a server's SYN+ACK may advertise anything), so a valid
send() must not panic because of it.
---
 src/half_connection/packet_sender.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 46351ef..7da4821 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -137,7 +137,6 @@ impl PacketSender {
     // Places a user packet on the send queue.
     pub fn enqueue_packet(&mut self, data: Box<[u8]>, channel_id: u8, mode: SendMode, flush_id: u32) {
         debug_assert!(data.len() <= MAX_PACKET_SIZE);
-        debug_assert!(data.len() <= self.max_alloc);
         debug_assert!((channel_id as usize) < CHANNEL_COUNT);
 
         self.total_size += data.len();
-- 
2.43.0


From ab9c2821229007af9df3b93ac21311772d4b7a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 13/29] fix: a repeated acknowledgement must not generate
 feedback

An ack group whose frames had all been acknowledged before still produced feedback with a
send time of zero, i.e. an RTT sample equal to the connection's age.
---
 src/half_connection/frame_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..e5beacc 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -282,6 +282,7 @@ impl FrameQueue {
         let mut last_send_time_ms = 0;
         let mut total_ack_size = 0;
         let mut rate_limited = false;
+        let mut newly_acked = false;
 
         let mut bitfield_size = 0;
         for i in (0 .. 32).rev() {
@@ -326,6 +327,7 @@ impl FrameQueue {
                 // Receiver has received this packet
                 if sent_frame.acked == false {
                     sent_frame.acked = true;
+                    newly_acked = true;
 
                     // Mark each fragment acknowledged and clear the list
                     let fragment_refs = std::mem::take(&mut sent_frame.fragment_refs);
@@ -350,6 +352,11 @@ impl FrameQueue {
             }
         }
 
+        if !newly_acked {
+            // Repeated ack group, contains no new information
+            return;
+        }
+
         // Add to pending feedback data
         self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
     }
-- 
2.43.0


From 2fdac1b6dbda180ddc293435cb0a2a52216d6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 14/29] fix: start the client's active timeout when the
 connection is established

The initial deadline was active_timeout_ms after the Client's creation rather than after
the SYN+ACK, so a client whose handshake took longer than that timed out immediately.
---
 src/client/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6b9f628..1f68497 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -395,7 +395,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, now_ms: u64, frame: frame::HandshakeSynAckFrame) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -453,7 +453,7 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
                         disconnect_signal: None,
                     });
                 }
@@ -593,7 +593,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(now_ms, frame);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
-- 
2.43.0


From a48eae1c90ed93a858378dc72ac80e09f31741ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 15/29] fix: enforce both connection limits when a handshake
 begins

A SYN was refused only if both limits were reached, so either could be exceeded. Pending
handshakes count towards max_active_connections, because nothing stops them from becoming
active at once and a client that has received a SYN+ACK can no longer be refused.
---
 src/server/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index daff9f5..328440a 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -228,6 +228,16 @@ impl Server {
         (now - self.time_base).as_millis() as u64
     }
 
+    // Returns the number of clients which are active, or may become active without further checks.
+    fn reserved_count(&self) -> usize {
+        self.clients.values().filter(|client_rc| {
+            match client_rc.borrow().state {
+                remote_client::State::Pending(_) | remote_client::State::Active(_) => true,
+                _ => false,
+            }
+        }).count()
+    }
+
     fn handle_handshake_syn(
         &mut self,
         client_addr: net::SocketAddr,
@@ -256,7 +266,7 @@ impl Server {
         }
 
         if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+            || self.reserved_count() >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
-- 
2.43.0


From 31d6bb16421ed940c4e2bf1f5696162edc1c0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 16/29] fix: bound the queue of pending acknowledgement groups

A peer sending frames faster than this endpoint may send acknowledgements, with gaps
between their ids, could grow the queue without limit.
---
 src/half_connection/frame_ack_queue.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..73f462f 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -1,5 +1,6 @@
 
 use crate::frame;
+use crate::MAX_FRAME_WINDOW_SIZE;
 
 struct ReceiveWindow {
     base_id: u32,
@@ -43,6 +44,15 @@ impl FrameAckQueue {
         }
     }
 
+    fn push_entry(&mut self, entry: frame::AckGroup) {
+        // A well-behaved sender never has this many unacknowledged frames
+        if self.entries.len() >= MAX_FRAME_WINDOW_SIZE as usize {
+            self.entries.pop_front();
+        }
+
+        self.entries.push_back(entry);
+    }
+
     pub fn base_id(&self) -> u32 {
         self.receive_window.base_id()
     }
@@ -67,14 +77,14 @@ impl FrameAckQueue {
                         last_entry.nonce ^= nonce;
                     }
                 } else {
-                    self.entries.push_back(frame::AckGroup {
+                    self.push_entry(frame::AckGroup {
                         base_id: frame_id,
                         bitfield: 0x00000001,
                         nonce: nonce,
                     });
                 }
             } else {
-                self.entries.push_back(frame::AckGroup {
+                self.push_entry(frame::AckGroup {
                     base_id: frame_id,
                     bitfield: 0x00000001,
                     nonce: nonce,
-- 
2.43.0


From a1fc320147344abfbc24b756ca1c1ade371fbccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 17/29] fix: an active client must not acknowledge a SYN+ACK
 for another connection

If the server lost its state after the handshake, a delayed copy of the original SYN
started a second handshake; the client acknowledged the new server nonce, leaving both
ends active with different sequence numbers.
---
 src/client/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 1f68497..d1c900e 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -116,6 +116,7 @@ struct PendingState {
 
 struct ActiveState {
     local_nonce: u32,
+    remote_nonce: u32,
     half_connection: half_connection::HalfConnection,
     timeout_time_ms: u64,
     disconnect_signal: Option<DisconnectMode>,
@@ -452,6 +453,7 @@ impl Client {
 
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
+                        remote_nonce: frame.nonce,
                         half_connection,
                         timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
                         disconnect_signal: None,
@@ -460,11 +462,11 @@ impl Client {
             }
             State::Active(ref state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
-                // the nonce ack matches ours (and ignore it otherwise). This case is only
-                // encountered when our initial ACK was dropped - all that matters is that the
+                // the nonces match those of this connection (and ignore it otherwise). This case is
+                // only encountered when our initial ACK was dropped - all that matters is that the
                 // server receives an ACK.
 
-                if frame.nonce_ack == state.local_nonce {
+                if frame.nonce_ack == state.local_nonce && frame.nonce == state.remote_nonce {
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From 7289960378a751a886279f1e1dbbc5f41e0d4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 18/29] fix: return assembled packets with the layout they were
 allocated with

finalize() re-boxed the assembly buffer with a shorter length, so the block was later
deallocated with the wrong size.
---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..4b6a79c 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut data = self.buffer.into_vec();
+        data.truncate(self.total_size);
+        data.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From 195e3849894d78810f2a48a0680486a48c406ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 19/29] fix: do not forget frames before their retransmission
 timeout

Frames were forgotten 4 RTT estimates after being sent (600 ms before the first sample),
and acknowledgements of forgotten frames are ignored. If the actual RTT was or became
larger, no acknowledgement was ever accepted again, and the connection remained at the
minimum send rate. The RTO grows as the send rate drops, so that one eventually is.
---
 src/half_connection/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index be99ed2..0d62b0a 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -181,7 +181,7 @@ impl HalfConnection {
         self.rto_ms = rto_ms;
 
         // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms.max(rtt_ms*4)), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From 1aff66ffb9e0f59b4b4397d2954561d9bbbee749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 20/29] fix: carry fractional bytes of send credit between
 steps

The credit was rounded on each step: with less than half a byte per step (e.g. the
minimum rate stepped every 20 ms) nothing was ever sent again, and with just over half a
byte per step the rate was exceeded by up to a factor of two.
---
 src/half_connection/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 0d62b0a..725f5d5 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -80,6 +80,7 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    flush_alloc_frac: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -108,6 +109,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_frac: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -209,7 +211,11 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
+            // Carry the fractional part over to the next call, otherwise frequent calls would
+            // accumulate rounding errors (or never add anything at all)
+            let new_bytes_exact = send_rate * delta_time + self.flush_alloc_frac;
+            let new_bytes = new_bytes_exact.floor() as isize;
+            self.flush_alloc_frac = new_bytes_exact.fract();
             let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
 
             self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
-- 
2.43.0


From 78b6d21ada7b57ffb792f717a7528c8eda2dc9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 21/29] fix: include packets sent while connecting in
 Client::send_buffer_size()

---
 src/client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index d1c900e..33354a4 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -386,6 +386,7 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => state.initial_sends.iter().map(|entry| entry.data.len()).sum(),
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0


From d776040013925546439a764fdfc7a0bbc85ecea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 22/29] fix: saturate max_send_rate instead of truncating it to
 32 bits

A max_send_rate of 2^32 became a ceiling of 0 B/s.
---
 src/client/mod.rs | 2 +-
 src/server/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 33354a4..ee2029d 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -430,7 +430,7 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(frame.max_receive_rate),
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 328440a..a2ce172 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -390,7 +390,7 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(state.remote_max_receive_rate),
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From 466e86b7a02960ca16cf26a19389ed1312169ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 23/29] fix: never transmit a TimeSensitive packet whose
 transmission did not begin in time

While rate- or window-limited, emit_data_frames() still moved one packet from the send
queue to the pending queue, where it is no longer subject to the TimeSensitive check, and
transmitted it at any later time. Leave it in the send queue until a frame can be sent.
---
 src/half_connection/emit.rs          | 24 ++++++++++++++++++++
 src/half_connection/frame_queue.rs   |  6 ++++-
 src/half_connection/mod.rs           | 11 ++++++++++
 src/half_connection/packet_sender.rs | 33 +++++++++++++++++-----------
 4 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index 8b8c762..1c0f9ac 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -45,6 +45,30 @@ impl<'a, F> DataFrameEmitter<'a, F> where F: FnMut(Box<[u8]>) {
         }
     }
 
+    // Returns Ok(()) if any datagram could be added by a subsequent call to push()
+    // Returns Err(DataPushError) otherwise, after finalizing the frame in progress
+    pub fn reserve(&mut self) -> Result<(), DataPushError> {
+        let (frame_size, frame_count) = match self.in_progress_frame {
+            Some(ref frame) => (frame.fbuilder.size(), 1),
+            None => (0, 0),
+        };
+
+        if (self.flush_alloc - frame_size as isize) < 0 {
+            // Out of bandwidth
+            self.finalize();
+            self.frame_queue.mark_rate_limited();
+            return Err(DataPushError::SizeLimited);
+        }
+
+        if !self.frame_queue.can_push_count(frame_count + 1) {
+            // Would exceed window
+            self.finalize();
+            return Err(DataPushError::WindowLimited);
+        }
+
+        return Ok(());
+    }
+
     // Returns Ok(()) if the datagram was added successfully
     // Returns Err(DataPushError) if the datagram could not be added
     pub fn push(&mut self, packet_rc: &pending_packet::PendingPacketRc, fragment_id: u16, resend: bool) -> Result<(), DataPushError> {
diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e5beacc..a6fefd5 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -226,7 +226,11 @@ impl FrameQueue {
     }
 
     pub fn can_push(&self) -> bool {
-        return self.next_id().wrapping_sub(self.window.base_id) < self.window.size;
+        return self.can_push_count(1);
+    }
+
+    pub fn can_push_count(&self, count: u32) -> bool {
+        return self.next_id().wrapping_sub(self.window.base_id) + count <= self.window.size;
     }
 
     pub fn next_id(&self) -> u32 {
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 725f5d5..5951f52 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -396,6 +396,17 @@ impl HalfConnection {
 
         loop {
             if self.pending_queue.is_empty() {
+                if self.packet_sender.can_emit_packet(flush_id) {
+                    // Do not take a packet from the send queue unless its transmission begins now,
+                    // as a TimeSensitive packet can only be dropped while it is in the send queue
+                    match dfe.reserve() {
+                        // Being window-limited does not preclude further sends
+                        Err(emit::DataPushError::WindowLimited) => return Ok(()),
+                        Err(emit::DataPushError::SizeLimited) => return Err(()),
+                        Ok(_) => (),
+                    }
+                }
+
                 if let Some((packet_rc, resend)) = self.packet_sender.emit_packet(flush_id) {
                     let pending_packet_ref = packet_rc.borrow();
 
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 7da4821..964705b 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -143,9 +143,20 @@ impl PacketSender {
         self.packet_send_queue.push_back(PacketSendEntry::new(data, channel_id, mode, flush_id));
     }
 
-    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
-    // the maximum transfer window.
-    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+    // Returns true if the next call to emit_packet() would return a packet.
+    pub fn can_emit_packet(&mut self, flush_id: u32) -> bool {
+        self.drop_stale_packets(flush_id);
+
+        if let Some(packet) = self.packet_send_queue.front() {
+            return packet_id::sub(self.next_id, self.base_id) < self.window_size &&
+                   self.alloc + alloc_size(packet.data.len()) <= self.max_alloc;
+        }
+
+        return false;
+    }
+
+    // Drops TimeSensitive packets at the front of the send queue which were not sent in time.
+    fn drop_stale_packets(&mut self, flush_id: u32) {
         while let Some(packet) = self.packet_send_queue.front() {
             match packet.mode {
                 SendMode::TimeSensitive => {
@@ -159,20 +170,16 @@ impl PacketSender {
                 _ => break
             }
         }
+    }
 
-        if let Some(packet) = self.packet_send_queue.front() {
-            if packet_id::sub(self.next_id, self.base_id) >= self.window_size {
-                return None;
-            }
+    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
+    // the maximum transfer window.
+    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+        if self.can_emit_packet(flush_id) {
+            let packet = self.packet_send_queue.pop_front().unwrap();
 
             let packet_alloc_size = alloc_size(packet.data.len());
 
-            if self.alloc + packet_alloc_size > self.max_alloc {
-                return None;
-            }
-
-            let packet = self.packet_send_queue.pop_front().unwrap();
-
             let sequence_id = self.next_id;
             let ref mut channel = self.channels[packet.channel_id as usize];
 
-- 
2.43.0


From d6e77784bfe742a3d705b31b6824de8f43a7bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 24/29] fix: fill the send allocation before flushing, not only
 afterwards

---
 src/half_connection/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 5951f52..2f61338 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -201,6 +201,10 @@ impl HalfConnection {
     }
 
     pub fn flush(&mut self, sink: &mut impl FrameSink) {
+        // Account for the time elapsed before sending anything, otherwise a full allocation could
+        // be sent now, and be refilled at the same time
+        self.fill_flush_alloc(time::Instant::now());
+
         // Send as many frames as possible
         self.emit_frames(self.now_ms, self.rtt_ms, self.rto_ms, self.flush_id, sink);
     }
-- 
2.43.0


From 4f14252df53d56f7feff48be738dd3878be1782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 25/29] fix: timestamp flushed frames with the current time

---
 src/half_connection/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 2f61338..81dc3a2 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -203,7 +203,11 @@ impl HalfConnection {
     pub fn flush(&mut self, sink: &mut impl FrameSink) {
         // Account for the time elapsed before sending anything, otherwise a full allocation could
         // be sent now, and be refilled at the same time
-        self.fill_flush_alloc(time::Instant::now());
+        let now = time::Instant::now();
+        self.fill_flush_alloc(now);
+
+        // Frames are sent now, not at the time of the previous step()
+        self.now_ms = (now - self.time_base).as_millis() as u64;
 
         // Send as many frames as possible
         self.emit_frames(self.now_ms, self.rtt_ms, self.rto_ms, self.flush_id, sink);
-- 
2.43.0


From badca3727e47c66b58b46c1d713ca5339f02bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 26/29] fix: do not overflow when rounding max_receive_alloc up
 to whole fragments

---
 src/half_connection/packet_receiver/assembly_window/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..b69cdb1 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,7 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             window: window.into_boxed_slice(),
-- 
2.43.0


From a9c28cc7fa069914ba54a6323e256802d8efbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 27/29] fix: do not overflow when active_timeout_ms is close to
 u64::MAX

---
 src/client/mod.rs | 8 ++++----
 src/server/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index ee2029d..35bf898 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -456,7 +456,7 @@ impl Client {
                         local_nonce: state.local_nonce,
                         remote_nonce: frame.nonce,
                         half_connection,
-                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
@@ -565,7 +565,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -575,7 +575,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -585,7 +585,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index a2ce172..93d076b 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -406,7 +406,7 @@ impl Server {
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -518,7 +518,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -540,7 +540,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -562,7 +562,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From f18989a51430465ecd7eab729108b4b91e02997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 28/29] fix: keep the allowed send rate at or above its floor
 during slow start

A round trip time beyond 190 s reduced the rate below s/64, and one beyond
4380 s to zero, after which nothing was ever sent again.
---
 src/half_connection/send_rate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 2990e03..dd93e6f 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -282,7 +282,9 @@ impl SendRateComp {
             _ => panic!()
         }
 
-        self.send_rate = self.send_rate.min(self.max_send_rate);
+        // A very large RTT would otherwise reduce the rate to zero during slow start, after which
+        // nothing would be sent, and no feedback received, ever again
+        self.send_rate = self.send_rate.max(MINIMUM_RATE).min(self.max_send_rate);
 
         // Restart nofeedback timer
         self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
-- 
2.43.0


From 605b9e2ef62c133eeabd5346175d3ade2c6aa140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 29/29] fix: disconnect() does not wait for the retransmission
 of acknowledged fragments

---
 src/half_connection/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 81dc3a2..c6f4797 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -126,7 +126,13 @@ impl HalfConnection {
     }
 
     pub fn is_send_pending(&self) -> bool {
-        self.packet_sender.pending_count() != 0 || self.pending_queue.len() != 0 || self.resend_queue.len() != 0
+        // The resend queue may still refer to fragments which have been acknowledged since
+        self.packet_sender.pending_count() != 0 || self.pending_queue.len() != 0 ||
+            self.resend_queue.iter().any(|entry| {
+                entry.fragment_ref.packet.upgrade().map_or(false, |packet_rc| {
+                    !packet_rc.borrow().fragment_acknowledged(entry.fragment_ref.fragment_id)
+                })
+            })
     }
 
     pub fn send(&mut self, data: Box<[u8]>, channel_id: u8, mode: SendMode) {
-- 
2.43.0

