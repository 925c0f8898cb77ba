//! Records what the frame codec does (for Codec.tla).
use crate::rng::{mix, Rng};
use crate::wire;
use std::fmt::Write;
use uflow::verif::internal as int;
use int::frame::serial::Serialize;
use int::frame::*;

fn u(x: u32) -> String { format!("[{},{}]", x >> 16, x & 0xffff) }
fn bytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() { if i > 0 { s.push(','); } write!(s, "{}", x).unwrap(); }
    s.push(']');
    s
}

fn json(f: &Frame) -> String {
    match f {
        Frame::HandshakeSynFrame(f) => format!("[\"N\",{},{},{},{},{}]", f.version, u(f.nonce), u(f.max_receive_rate), u(f.max_packet_size), u(f.max_receive_alloc)),
        Frame::HandshakeSynAckFrame(f) => format!("[\"B\",{},{},{},{},{}]", u(f.nonce_ack), u(f.nonce), u(f.max_receive_rate), u(f.max_packet_size), u(f.max_receive_alloc)),
        Frame::HandshakeAckFrame(f) => format!("[\"A\",{}]", u(f.nonce_ack)),
        Frame::HandshakeErrorFrame(f) => format!("[\"E\",{},{}]", u(f.nonce_ack), match f.error { HandshakeErrorType::Version => 0, HandshakeErrorType::Config => 1, HandshakeErrorType::ServerFull => 2 }),
        Frame::DisconnectFrame(_) => "[\"Q\"]".to_string(),
        Frame::DisconnectAckFrame(_) => "[\"q\"]".to_string(),
        Frame::DataFrame(f) => {
            let d: Vec<String> = f.datagrams.iter().map(|d| format!("[{},{},{},{},{},{},{}]", d.channel_id, u(d.sequence_id), d.window_parent_lead, d.channel_parent_lead, d.fragment_id, d.fragment_id_last, bytes(&d.data))).collect();
            format!("[\"F\",{},{},[{}]]", u(f.sequence_id), f.nonce as u8, d.join(","))
        }
        Frame::SyncFrame(f) => format!("[\"Y\",{},{}]", f.next_frame_id.map_or("[]".to_string(), u), f.next_packet_id.map_or("[]".to_string(), u)),
        Frame::AckFrame(f) => {
            let g: Vec<String> = f.frame_acks.iter().map(|g| format!("[{},{},{}]", u(g.base_id), u(g.bitfield), g.nonce as u8)).collect();
            format!("[\"K\",{},{},[{}]]", u(f.frame_window_base_id), u(f.packet_window_base_id), g.join(","))
        }
    }
}

fn rd(b: &[u8]) -> Option<Frame> { Frame::read(b) }
fn parsed(b: &[u8]) -> String { rd(b).map_or("[]".to_string(), |f| json(&f)) }

fn v32(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0, 1 => u32::MAX, 2 => 1 << r.below(32), 3 => (1u64 << r.below(32)).wrapping_sub(1) as u32, 4 => r.below(256) as u32, _ => r.u32(),
    }
}
fn v20(r: &mut Rng) -> u32 { v32(r) & 0xfffff }
fn v16(r: &mut Rng) -> u16 { match r.below(6) { 0 => 0, 1 => 0xffff, 2 => 1 << r.below(16), 3 => r.below(300) as u16, _ => r.u32() as u16 } }

fn payload(r: &mut Rng, n: usize) -> Box<[u8]> {
    let k = r.below(4);
    (0..n).map(|i| match k { 0 => 0, 1 => 0xff, 2 => i as u8, _ => r.u64() as u8 }).collect()
}

fn dg(r: &mut Rng, room: usize) -> Datagram {
    let mut len = match r.below(8) { 0 => 0, 1 => r.range(61, 66), 2 => r.range(126, 130), 3 => r.range(253, 258), 4 => r.range(0, 64), 5 => room as u64, _ => r.below(300) } as usize;
    len = len.min(room);
    let wl = match r.below(6) { 0 => 0, 1 => r.range(126, 129) as u16, 2 => v16(r), _ => r.below(128) as u16 };
    let cl = match r.below(6) { 0 => 0, 1 => r.range(254, 257) as u16, 2 => v16(r), _ => r.below(256) as u16 };
    let (frag, last) = match r.below(6) { 0 => { let l = v16(r); (if l == u16::MAX { v16(r) } else { v16(r) % (l + 1) }, l) } 1 => (0, 1), 2 => { let (a, b) = (v16(r), v16(r)); (a.min(b), a.max(b)) } _ => (0, 0) };
    Datagram { sequence_id: v20(r), channel_id: *r.pick(&[0u8, 15, 16, 31, 32, 47, 48, 63, 5]), window_parent_lead: wl, channel_parent_lead: cl, fragment_id: frag, fragment_id_last: last, data: payload(r, len) }
}

/// A representable frame
fn frame(r: &mut Rng, k: u64) -> Frame {
    match k % 9 {
        0 => Frame::HandshakeSynFrame(HandshakeSynFrame { version: v32(r) as u8, nonce: v32(r), max_receive_rate: v32(r), max_packet_size: v32(r), max_receive_alloc: v32(r) }),
        1 => Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: v32(r), nonce: v32(r), max_receive_rate: v32(r), max_packet_size: v32(r), max_receive_alloc: v32(r) }),
        2 => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: v32(r) }),
        3 => Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: v32(r), error: match r.below(3) { 0 => HandshakeErrorType::Version, 1 => HandshakeErrorType::Config, _ => HandshakeErrorType::ServerFull } }),
        4 => Frame::DisconnectFrame(DisconnectFrame {}),
        5 => Frame::DisconnectAckFrame(DisconnectAckFrame {}),
        6 => {
            // 0..127 datagrams in at most 1472 bytes
            let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 127, 3 => r.below(128), _ => r.range(1, 6) } as usize;
            let mut room = 1472 - 10;
            let mut v = Vec::new();
            for i in 0..n {
                let rest = (n - i - 1) * 6;
                if room < 14 + rest { if room >= 6 + rest {
                    v.push(Datagram { sequence_id: v20(r), channel_id: r.below(64) as u8, window_parent_lead: r.below(128) as u16, channel_parent_lead: r.below(256) as u16, fragment_id: 0, fragment_id_last: 0, data: Box::new([]) });
                    room -= 6;
                    continue;
                } else { break; } }
                let max = if n > 20 { (room - rest - 14).min(r.below(12) as usize) } else { room - rest - 14 };
                let d = dg(r, max);
                room -= 14 + d.data.len();
                v.push(d);
            }
            Frame::DataFrame(DataFrame { sequence_id: v32(r), nonce: r.chance(0.5), datagrams: v })
        }
        7 => Frame::SyncFrame(SyncFrame { next_frame_id: if r.chance(0.5) { Some(v32(r)) } else { None }, next_packet_id: if r.chance(0.5) { Some(v32(r)) } else { None } }),
        _ => {
            let n = match r.below(5) { 0 => 0, 1 => 161, 2 => r.below(162), _ => r.range(1, 5) };
            Frame::AckFrame(AckFrame { frame_window_base_id: v32(r), packet_window_base_id: v32(r), frame_acks: (0..n).map(|_| AckGroup { base_id: v32(r), bitfield: v32(r), nonce: r.chance(0.5) }).collect() })
        }
    }
}

struct Rec { ev: Vec<String> }
impl Rec {
    fn w(&mut self, f: &Frame) -> Box<[u8]> {
        let b = f.write();
        self.ev.push(format!("{{\"e\":\"W\",\"f\":{},\"b\":{},\"g\":{}}}", json(f), bytes(&b), parsed(&b)));
        b
    }
    fn r(&mut self, b: &[u8]) { self.ev.push(format!("{{\"e\":\"r\",\"b\":{},\"g\":{}}}", bytes(b), parsed(b))); }
}

pub fn run(kind: &str, idx: u64, seed: u64) -> String {
    let mut rr = Rng::new(mix(mix(seed, idx), kind.len() as u64));
    let r = &mut rr;
    let mut x = Rec { ev: Vec::new() };
    let res = crate::pool::guard(|| match kind {
        // Frames over their full ranges
        "rt" => {
            for k in 0..18 { let f = frame(r, k); x.w(&f); }
            if idx < 16 {
                // Every combination of thresholds of the datagram headers
                let lens = [0usize, 1, 62, 63, 64, 65, 127, 128, 254, 255, 256, 257, 1448, 1446, 1447, 300];
                for &wl in &[0u16, 1, 126, 127, 128, 129, 4095, 65535] { for &cl in &[0u16, 1, 254, 255, 256, 257, 65535] {
                    let (frag, last) = *r.pick(&[(0u16, 0u16), (0, 0), (0, 0), (0, 1), (1, 1), (65535, 65535), (0, 65535), (3, 7)]);
                    let f = Frame::DataFrame(DataFrame { sequence_id: v32(r), nonce: r.chance(0.5), datagrams: vec![Datagram { sequence_id: v20(r), channel_id: r.below(64) as u8, window_parent_lead: wl, channel_parent_lead: cl, fragment_id: frag, fragment_id_last: last, data: payload(r, lens[idx as usize]) }] });
                    x.w(&f);
                }}
            }
        }
        // Malformed frames with a correct checksum, and arbitrary bytes
        "bad" => {
            for k in 0..12u64 {
                let mut f = frame(r, r.clone().below(9));
                // Long frames are covered by "rt"
                for _ in 0..4 { if f.write().len() > 200 && !matches!(f, Frame::HandshakeSynFrame(_)) { f = frame(r, k); } }
                let b = f.write();
                let body = &b[..b.len() - 4];
                for _ in 0..6 {
                    let mut v = body.to_vec();
                    match r.below(10) {
                        0 => { let n = r.below(v.len() as u64) as usize; v.truncate(n); }
                        1 => { let n = r.range(1, 12); for _ in 0..n { v.push(r.u64() as u8); } }
                        2 => v[0] = r.below(256) as u8,
                        3 => v[0] = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13]),
                        4 => { let n = v.len().min(16) as u64; let i = r.below(n) as usize; v[i] = r.u64() as u8; }
                        5 => { let n = v.len() as u64; let i = r.below(n) as usize; v[i] ^= 1 << r.below(8); }
                        6 => { v.pop(); }
                        7 => v.push(0),
                        8 if v.len() > 5 => { let d = r.range(0, 2); v[5] = v[5].wrapping_add(d as u8).wrapping_sub(1); }
                        _ => { let n = v.len() as u64; let i = r.below(n) as usize; v.remove(i); }
                    }
                    // Mutants of the bulk of long frames are left out (size of the traces)
                    if v.len() > 300 && r.chance(0.8) { continue; }
                    let v = wire::seal(v);
                    x.r(&v);
                }
            }
            for _ in 0..12 {
                let n = r.below(40) as usize;
                let mut v: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
                if n > 0 && r.chance(0.8) { v[0] = *r.pick(&[0u8, 1, 2, 3, 4, 5, 10, 10, 10, 11, 12, 12]); }
                if n > 5 && v[0] == 10 && r.chance(0.8) { v[5] = r.below(3) as u8; if n > 6 { v[6] = r.below(32) as u8; } }
                if n > 10 && v[0] == 12 && r.chance(0.8) { v[9] = 0; v[10] = r.below(4) as u8; }
                if r.chance(0.9) { v = wire::seal(v); }
                x.r(&v);
            }
        }
        // Every type and length
        "len" => {
            for t in 0..=255u16 {
                if t % 16 != idx as u16 % 16 { continue; }
                for n in 0..(if t < 14 { 48 } else { 6 }) {
                    let mut v = vec![t as u8];
                    v.extend((0..n).map(|_| if t == 10 || t == 12 { 0 } else { r.u64() as u8 & 3 }));
                    x.r(&wire::seal(v));
                }
                if t < 14 { for n in 1462..1476usize {
                    if n < 1465 || n > 1468 { continue; }
                    let mut v = vec![t as u8];
                    v.extend((0..n).map(|i| if i < 20 { r.u64() as u8 } else { 0 }));
                    x.r(&wire::seal(v));
                } }
            }
            for n in 0..6 { let v: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect(); x.r(&v); }
        }
        // Bit errors: every single one; many of two to four
        "flip" => {
            let mut f = frame(r, idx);
            if idx % 9 == 6 && idx % 2 == 0 {
                // A frame of full size
                f = Frame::DataFrame(DataFrame { sequence_id: v32(r), nonce: true, datagrams: vec![Datagram { sequence_id: v20(r), channel_id: 3, window_parent_lead: 0, channel_parent_lead: 0, fragment_id: 0, fragment_id_last: 1, data: payload(r, 1448) }] });
            }
            let b = x.w(&f);
            let bits = b.len() * 8;
            let mut v = b.to_vec();
            for w in 1..=4usize {
                let mut n = 0u64;
                let mut acc: Vec<Vec<usize>> = Vec::new();
                let mut try_ = |v: &mut Vec<u8>, pos: &[usize]| {
                    for &p in pos { v[p / 8] ^= 1 << (p % 8); }
                    n += 1;
                    if rd(v).is_some() && acc.len() < 4 { acc.push(pos.to_vec()); }
                    for &p in pos { v[p / 8] ^= 1 << (p % 8); }
                };
                if w == 1 {
                    for p in 0..bits { try_(&mut v, &[p]); }
                } else {
                    if w == 2 {
                        // Adjacent pairs, and pairs within the header and the checksum
                        for p in 1..bits { try_(&mut v, &[p - 1, p]); }
                        let ends: Vec<usize> = (0..bits.min(64)).chain(bits - 32..bits).collect();
                        for &p in &ends { for &q in &ends { if p < q { try_(&mut v, &[p, q]); } } }
                    }
                    for k in 0..6000 {
                        let mut pos: Vec<usize> = Vec::new();
                        while pos.len() < w {
                            let p = if k % 4 == 0 { bits - 1 - r.below(32) as usize } else if k % 4 == 1 { r.below(64.min(bits as u64)) as usize } else { r.below(bits as u64) as usize };
                            if !pos.contains(&p) { pos.push(p); }
                        }
                        try_(&mut v, &pos);
                    }
                }
                x.ev.push(format!("{{\"e\":\"x\",\"w\":{},\"n\":{},\"acc\":{:?}}}", w, n.min(2_000_000_000), acc));
            }
        }
        // The checksum itself
        "crc" => {
            if idx == 0 {
                for b in 0..=255u8 { let v = [b]; x.ev.push(format!("{{\"e\":\"c\",\"b\":[{}],\"s\":{}}}", b, u(int::crc(&v)))); }
                x.ev.push(format!("{{\"e\":\"c\",\"b\":{},\"s\":{}}}", bytes(b"123456789"), u(int::crc(b"123456789"))));
                x.ev.push(format!("{{\"e\":\"c\",\"b\":[],\"s\":{}}}", u(int::crc(&[]))));
            }
            for _ in 0..20 { let n = r.below(60) as usize; let v = payload(r, n); x.ev.push(format!("{{\"e\":\"c\",\"b\":{},\"s\":{}}}", bytes(&v), u(int::crc(&v)))); }
            if idx == 1 {
                // Syndrome of every bit position of a frame of 1472 bytes
                let n = 1472 - 4;
                let mut z = vec![0u8; n];
                let c0 = int::crc(&z);
                let mut s = String::new();
                for p in 0..n * 8 {
                    z[p / 8] ^= 1 << (p % 8);
                    if p > 0 { s.push(','); }
                    s.push_str(&u(int::crc(&z) ^ c0));
                    z[p / 8] ^= 1 << (p % 8);
                }
                for p in 0..32 { s.push(','); s.push_str(&u(1 << p)); }
                x.ev.push(format!("{{\"e\":\"s\",\"s\":[{}]}}", s));
            }
        }
        _ => panic!("kind"),
    });
    if let Err(m) = res { x.ev.push(format!("{{\"e\":\"P\",\"m\":\"{}\"}}", m)); }
    format!("{{\"fam\":\"W\",\"job\":\"codec:{}:{}\",\"ev\":[{}]}}", kind, idx, x.ev.join(","))
}
