//! Packet contents which identify the packet (and fragment) they belong to.
use crate::rng::mix;
use crate::wire::FRAG;
use std::collections::HashMap;

/// Deterministic content of packet `uid` (>= 1). Packets of 8 bytes or more carry `uid` and the
/// fragment index at the start of every fragment; shorter ones are made unique by the registry.
pub fn make(salt: u32, uid: u32, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let mut h = mix(salt as u64, uid as u64);
    let mut i = 0;
    while v.len() < len {
        if v.len() % FRAG == 0 {
            let f = (v.len() / FRAG) as u16;
            let hd = [uid as u8, (uid >> 8) as u8, (uid >> 16) as u8, f as u8, (f >> 8) as u8, salt as u8];
            for b in hd {
                if v.len() < len { v.push(b); }
            }
        } else {
            if i % 8 == 0 { h = mix(h, i); }
            v.push((h >> (8 * (i % 8))) as u8);
            i += 1;
        }
    }
    v
}

#[derive(Default)]
pub struct Registry {
    pub data: Vec<Vec<u8>>,            // by uid-1
    short: HashMap<Vec<u8>, u32>,      // contents of packets shorter than 8 bytes
    pub zeros: Vec<u32>,               // uids of empty packets in submission order
}

impl Registry {
    /// Registers the next packet; returns its uid and content. The requested length may grow if
    /// no unique content of that length is left.
    pub fn add(&mut self, salt: u32, mut len: usize) -> (u32, Vec<u8>) {
        let uid = self.data.len() as u32 + 1;
        let v = loop {
            let mut v = make(salt, uid, len);
            if len > 0 && len < 8 {
                let mut k = uid;
                let mut tries = 0;
                while self.short.contains_key(&v) && tries < 64 {
                    k = k.wrapping_mul(2654435761).wrapping_add(12345);
                    for (i, b) in v.iter_mut().enumerate() { *b = (k >> (8 * (i % 4))) as u8; }
                    tries += 1;
                }
                if self.short.contains_key(&v) {
                    len += 1;
                    continue;
                }
                self.short.insert(v.clone(), uid);
            }
            break v;
        };
        if len == 0 { self.zeros.push(uid); }
        self.data.push(v.clone());
        (uid, v)
    }

    /// uid of a complete packet (0 if its content was never submitted). `zero_idx` counts the
    /// empty packets seen before this one.
    pub fn identify(&self, data: &[u8], zero_idx: &mut usize) -> u32 {
        if data.is_empty() {
            let u = self.zeros.get(*zero_idx).copied().unwrap_or(0);
            *zero_idx += 1;
            return u;
        }
        if data.len() < 8 {
            return self.short.get(data).copied().unwrap_or(0);
        }
        let uid = data[0] as u32 | (data[1] as u32) << 8 | (data[2] as u32) << 16;
        match self.data.get((uid as usize).wrapping_sub(1)) {
            Some(d) if d == data => uid,
            _ => 0,
        }
    }

    /// uid a fragment seems to belong to (0: unknown)
    pub fn guess_fragment(&self, data: &[u8], last: u16, zero_idx: &mut usize) -> u32 {
        if data.len() < 8 && last == 0 {
            return self.identify(data, zero_idx);
        }
        if data.len() < 3 {
            // Short tail of a long packet
            return 0;
        }
        let uid = data[0] as u32 | (data[1] as u32) << 8 | (data[2] as u32) << 16;
        if uid >= 1 && uid as usize <= self.data.len() { uid } else { 0 }
    }

    /// Exact content of fragment `frag` of packet `uid`
    pub fn fragment(&self, uid: u32, frag: u16) -> Option<&[u8]> {
        let d = self.data.get((uid as usize).wrapping_sub(1))?;
        let a = frag as usize * FRAG;
        if a > d.len() || (a == d.len() && frag > 0) { return None; }
        Some(&d[a..(a + FRAG).min(d.len())])
    }

    pub fn last_frag(&self, uid: u32) -> u16 {
        let n = self.data[uid as usize - 1].len();
        if n <= FRAG { 0 } else { ((n + FRAG - 1) / FRAG - 1) as u16 }
    }
}
