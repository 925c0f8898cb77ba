//! Independent encoder/decoder for uflow datagrams, written from the wire format. The harness uses
//! it to observe what real endpoints put on the wire and to forge frames.

#[derive(Clone, Debug, PartialEq)]
pub struct Dg {
    pub pid: u32,
    pub ch: u8,
    pub wl: u16,
    pub cl: u16,
    pub frag: u16,
    pub last: u16,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Group {
    pub base: u32,
    pub bits: u32,
    pub nonce: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Frame {
    Syn { version: u8, nonce: u32, rate: u32, psize: u32, alloc: u32 },
    SynAck { nonce_ack: u32, nonce: u32, rate: u32, psize: u32, alloc: u32 },
    Ack { nonce_ack: u32 },
    Err { nonce_ack: u32, code: u8 },
    Disc,
    DiscAck,
    Data { seq: u32, nonce: bool, dgs: Vec<Dg> },
    Sync { frame: Option<u32>, packet: Option<u32> },
    Acks { fb: u32, pb: u32, groups: Vec<Group> },
}

pub const MAX_FRAME: usize = 1472;
pub const FRAG: usize = 1448;

// CRC: bitwise, reflected. Parameters follow the format (poly 0x132c00699 => reflected 0x9960034c).
pub fn crc(data: &[u8]) -> u32 {
    let mut crc = 0xffffffffu32;
    for &b in data {
        crc ^= b as u32;
        for _ in 0..8 {
            crc = if crc & 1 != 0 { (crc >> 1) ^ 0x9960034c } else { crc >> 1 };
        }
    }
    crc ^ 0xffffffff
}

pub fn seal(mut v: Vec<u8>) -> Vec<u8> {
    let c = crc(&v);
    v.extend_from_slice(&c.to_be_bytes());
    v
}

fn p16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_be_bytes()); }
fn p32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_be_bytes()); }

pub fn encode_dg(v: &mut Vec<u8>, d: &Dg) {
    let pid = d.pid & 0xfffff;
    let len = d.data.len();
    if d.last == 0 && d.frag == 0 && len < 64 && d.wl < 128 && d.cl < 256 {
        v.push(((d.ch & 0x10) << 2) | (len as u8));
        v.push((((pid >> 16) as u8) << 4) | (d.ch & 0x0f));
        p16(v, pid as u16);
        v.push(((d.ch & 0x20) << 2) | d.wl as u8);
        v.push(d.cl as u8);
    } else if d.last == 0 && d.frag == 0 && len < 256 {
        v.push(0x80 | (d.ch & 0x3f));
        v.push(len as u8);
        v.push((pid >> 16) as u8);
        p16(v, pid as u16);
        p16(v, d.wl);
        p16(v, d.cl);
    } else {
        v.push(0xc0 | (d.ch & 0x3f));
        p16(v, len as u16);
        v.push((pid >> 16) as u8);
        p16(v, pid as u16);
        p16(v, d.wl);
        p16(v, d.cl);
        p16(v, d.frag);
        p16(v, d.last);
    }
    v.extend_from_slice(&d.data);
}

pub fn dg_size(d: &Dg) -> usize {
    let mut v = Vec::new();
    encode_dg(&mut v, d);
    v.len()
}

pub fn encode(f: &Frame) -> Vec<u8> {
    let mut v = Vec::new();
    match f {
        Frame::Syn { version, nonce, rate, psize, alloc } => {
            v.push(0);
            v.push(*version);
            p32(&mut v, *nonce);
            p32(&mut v, *rate);
            p32(&mut v, *psize);
            p32(&mut v, *alloc);
            v.resize(MAX_FRAME - 4, 0);
        }
        Frame::SynAck { nonce_ack, nonce, rate, psize, alloc } => {
            v.push(1);
            p32(&mut v, *nonce_ack);
            p32(&mut v, *nonce);
            p32(&mut v, *rate);
            p32(&mut v, *psize);
            p32(&mut v, *alloc);
        }
        Frame::Ack { nonce_ack } => {
            v.push(2);
            p32(&mut v, *nonce_ack);
        }
        Frame::Err { nonce_ack, code } => {
            v.push(3);
            p32(&mut v, *nonce_ack);
            v.push(*code);
        }
        Frame::Disc => v.push(4),
        Frame::DiscAck => v.push(5),
        Frame::Data { seq, nonce, dgs } => {
            v.push(10);
            p32(&mut v, *seq);
            v.push(((*nonce as u8) << 7) | dgs.len() as u8);
            for d in dgs {
                encode_dg(&mut v, d);
            }
        }
        Frame::Sync { frame, packet } => {
            v.push(11);
            v.push(frame.is_some() as u8 | (packet.is_some() as u8) << 1);
            p32(&mut v, frame.unwrap_or(0));
            p32(&mut v, packet.unwrap_or(0));
        }
        Frame::Acks { fb, pb, groups } => {
            v.push(12);
            p32(&mut v, *fb);
            p32(&mut v, *pb);
            p16(&mut v, groups.len() as u16);
            for g in groups {
                p32(&mut v, g.base);
                p32(&mut v, g.bits);
                v.push(g.nonce as u8);
            }
        }
    }
    seal(v)
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u8(&mut self) -> Option<u8> {
        let (a, b) = self.0.split_first()?;
        self.0 = b;
        Some(*a)
    }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n { return None; }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u16(&mut self) -> Option<u16> { self.take(2).map(|b| u16::from_be_bytes([b[0], b[1]])) }
    fn u32(&mut self) -> Option<u32> { self.take(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])) }
}

fn decode_dg(r: &mut Rd) -> Option<Dg> {
    let b0 = r.u8()?;
    if b0 & 0x80 == 0 {
        let b1 = r.u8()?;
        let p = r.u16()?;
        let b4 = r.u8()?;
        let b5 = r.u8()?;
        let len = (b0 & 0x3f) as usize;
        Some(Dg {
            pid: ((b1 as u32 >> 4) << 16) | p as u32,
            ch: (b1 & 0x0f) | ((b0 & 0x40) >> 2) | ((b4 & 0x80) >> 2),
            wl: (b4 & 0x7f) as u16,
            cl: b5 as u16,
            frag: 0,
            last: 0,
            data: r.take(len)?.to_vec(),
        })
    } else if b0 & 0x40 == 0 {
        let len = r.u8()? as usize;
        let s = r.u8()?;
        let p = r.u16()?;
        let wl = r.u16()?;
        let cl = r.u16()?;
        Some(Dg {
            pid: ((s as u32 & 0xf) << 16) | p as u32,
            ch: b0 & 0x3f,
            wl,
            cl,
            frag: 0,
            last: 0,
            data: r.take(len)?.to_vec(),
        })
    } else {
        let len = r.u16()? as usize;
        let s = r.u8()?;
        let p = r.u16()?;
        let wl = r.u16()?;
        let cl = r.u16()?;
        let frag = r.u16()?;
        let last = r.u16()?;
        Some(Dg {
            pid: ((s as u32 & 0xf) << 16) | p as u32,
            ch: b0 & 0x3f,
            wl,
            cl,
            frag,
            last,
            data: r.take(len)?.to_vec(),
        })
    }
}

pub fn decode(bytes: &[u8]) -> Option<Frame> {
    if bytes.len() < 5 {
        return None;
    }
    let (body, c) = bytes.split_at(bytes.len() - 4);
    if crc(body) != u32::from_be_bytes([c[0], c[1], c[2], c[3]]) {
        return None;
    }
    let mut r = Rd(body);
    let f = match r.u8()? {
        0 => {
            if bytes.len() != MAX_FRAME { return None; }
            let f = Frame::Syn { version: r.u8()?, nonce: r.u32()?, rate: r.u32()?, psize: r.u32()?, alloc: r.u32()? };
            r.0 = &[];
            f
        }
        1 => Frame::SynAck { nonce_ack: r.u32()?, nonce: r.u32()?, rate: r.u32()?, psize: r.u32()?, alloc: r.u32()? },
        2 => Frame::Ack { nonce_ack: r.u32()? },
        3 => {
            let nonce_ack = r.u32()?;
            let code = r.u8()?;
            if code > 2 { return None; }
            Frame::Err { nonce_ack, code }
        }
        4 => Frame::Disc,
        5 => Frame::DiscAck,
        10 => {
            let seq = r.u32()?;
            let n = r.u8()?;
            let mut dgs = Vec::new();
            for _ in 0..(n & 0x7f) {
                dgs.push(decode_dg(&mut r)?);
            }
            Frame::Data { seq, nonce: n & 0x80 != 0, dgs }
        }
        11 => {
            let m = r.u8()?;
            let a = r.u32()?;
            let b = r.u32()?;
            Frame::Sync { frame: if m & 1 != 0 { Some(a) } else { None }, packet: if m & 2 != 0 { Some(b) } else { None } }
        }
        12 => {
            let fb = r.u32()?;
            let pb = r.u32()?;
            let n = r.u16()?;
            let mut groups = Vec::new();
            for _ in 0..n {
                groups.push(Group { base: r.u32()?, bits: r.u32()?, nonce: r.u8()? != 0 });
            }
            Frame::Acks { fb, pb, groups }
        }
        _ => return None,
    };
    if !r.0.is_empty() {
        return None;
    }
    Some(f)
}
