//! Checking global allocator: every block carries a header with its true layout and a canary;
//! blocks obtained while the calling thread runs library code are entered in a per-thread ledger.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write;

pub struct Checking;

#[global_allocator]
static GLOBAL: Checking = Checking;

const MAGIC: u64 = 0x5eed_a110_c8ed_b10c;
const FREED: u64 = 0xdead_f4ee_dead_f4ee;
const TAIL: u64 = 0x7a11_ca4a_47_7a11;
const HDR: usize = 48;

#[repr(C)]
struct Hdr { size: usize, align: usize, off: usize, id: u64, trk: u64, magic: u64 }

#[derive(Clone, Copy)]
enum Ev {
    Alloc(u64, usize, usize),
    Free(u64, usize, usize),
    Twice(u64),
    Overrun(u64),
    Wild,
    Mark(char, u64, u64, u64),
    Switch,
}

pub struct Tracker {
    serial: u64,
    next: u64,
    /// ledger of every block; once `cap` is exceeded, only irregular operations
    full: bool,
    cap: usize,
    ev: Vec<Ev>,
    pub blocks: u64,
    pub bytes: u64,
    pub total: u64,
    pub peak: u64,
    quarantine: std::collections::VecDeque<(usize, usize)>,
    qbytes: usize,
}

thread_local! {
    static TRK: Cell<*mut Tracker> = const { Cell::new(std::ptr::null_mut()) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static SERIAL: Cell<u64> = const { Cell::new(0) };
}

fn with<R>(f: impl FnOnce(&mut Tracker) -> R) -> Option<R> {
    let p = TRK.try_with(|t| t.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() || BUSY.with(|b| b.get()) { return None; }
    BUSY.with(|b| b.set(true));
    let r = f(unsafe { &mut *p });
    BUSY.with(|b| b.set(false));
    Some(r)
}

impl Tracker {
    fn log(&mut self, e: Ev) {
        if self.full {
            self.ev.push(e);
            if self.ev.len() >= self.cap { self.full = false; self.ev.push(Ev::Switch); }
        }
    }
    fn irregular(&mut self, e: Ev) { if self.ev.len() < self.cap + 1000 { self.ev.push(e); } }
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let off = HDR.max(l.align()).next_multiple_of(l.align());
        let total = off + l.size() + 8;
        let base = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(16)));
        if base.is_null() { return base; }
        let p = base.add(off);
        let h = p.sub(HDR) as *mut Hdr;
        let mut id = 0;
        let mut trk = 0;
        if DEPTH.try_with(|d| d.get()).unwrap_or(0) > 0 {
            with(|t| {
                t.next += 1;
                id = t.next;
                trk = t.serial;
                t.blocks += 1;
                t.total += 1;
                t.bytes += l.size() as u64;
                t.peak = t.peak.max(t.bytes);
                t.log(Ev::Alloc(id, l.size(), l.align()));
            });
            // Contents of fresh memory are arbitrary
            if id > 0 { std::ptr::write_bytes(p, 0xa5, l.size()); }
        }
        h.write_unaligned(Hdr { size: l.size(), align: l.align(), off, id, trk, magic: MAGIC });
        (p.add(l.size()) as *mut u64).write_unaligned(TAIL);
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let hp = p.sub(HDR) as *mut Hdr;
        let h = hp.read_unaligned();
        if h.magic == FREED {
            with(|t| t.irregular(Ev::Twice(h.id)));
            return;
        }
        if h.magic != MAGIC {
            with(|t| t.irregular(Ev::Wild));
            return;
        }
        let overrun = (p.add(h.size) as *const u64).read_unaligned() != TAIL;
        let bad = l.size() != h.size || l.align() != h.align;
        let inside = DEPTH.try_with(|d| d.get()).unwrap_or(0) > 0;
        let mut kept = false;
        with(|t| {
            let mine = h.id > 0 && h.trk == t.serial;
            if mine {
                t.blocks -= 1;
                t.bytes -= h.size as u64;
                if overrun { t.irregular(Ev::Overrun(h.id)); }
                if t.full { t.log(Ev::Free(h.id, l.size(), l.align())); } else if bad {
                    t.irregular(Ev::Alloc(h.id, h.size, h.align));
                    t.irregular(Ev::Free(h.id, l.size(), l.align()));
                }
                // Kept for a while, so that a second release is noticed
                (*hp).magic = FREED;
                std::ptr::write_bytes(p, 0xde, h.size);
                t.quarantine.push_back((p as usize, h.size));
                t.qbytes += h.size;
                while t.quarantine.len() > 256 || t.qbytes > 1 << 20 {
                    let (q, n) = t.quarantine.pop_front().unwrap();
                    t.qbytes -= n;
                    release(q as *mut u8);
                }
                kept = true;
            } else if inside && (bad || overrun) {
                // A block which was handed to the library
                t.next += 1;
                let id = t.next;
                t.irregular(Ev::Alloc(id, h.size, h.align));
                if overrun { t.irregular(Ev::Overrun(id)); }
                t.irregular(Ev::Free(id, l.size(), l.align()));
            }
        });
        if !kept { release(p); }
    }
}

unsafe fn release(p: *mut u8) {
    let h = (p.sub(HDR) as *mut Hdr).read_unaligned();
    (*(p.sub(HDR) as *mut Hdr)).magic = FREED;
    System.dealloc(p.sub(h.off), Layout::from_size_align_unchecked(h.off + h.size + 8, h.align.max(16)));
}

struct Depth;
impl Drop for Depth { fn drop(&mut self) { DEPTH.with(|d| d.set(d.get() - 1)); } }

/// Runs library code: what it allocates is entered in the ledger
pub fn inside<T>(f: impl FnOnce() -> T) -> T {
    DEPTH.with(|d| d.set(d.get() + 1));
    let _g = Depth;
    f()
}

/// Starts a ledger on this thread
pub fn start(cap: usize) {
    let serial = SERIAL.with(|s| { s.set(s.get() + 1); s.get() });
    let t = Box::new(Tracker {
        serial, next: 0, full: true, cap, ev: Vec::new(), blocks: 0, bytes: 0, total: 0, peak: 0, quarantine: Default::default(), qbytes: 0,
    });
    TRK.with(|p| p.set(Box::into_raw(t)));
}

pub fn bytes() -> u64 { with(|t| t.bytes).unwrap_or(0) }
pub fn active() -> bool { !TRK.with(|t| t.get()).is_null() }

/// Records the amount of live memory
pub fn mark(kind: char, k: u64) { with(|t| { let (n, m) = (t.blocks, t.bytes); t.irregular(Ev::Mark(kind, k, n, m)); }); }

/// Ends the ledger; returns its events
pub fn finish() -> (String, u64) {
    let p = TRK.with(|t| t.replace(std::ptr::null_mut()));
    let mut t = unsafe { Box::from_raw(p) };
    for (q, _) in std::mem::take(&mut t.quarantine) { unsafe { release(q as *mut u8); } }
    let mut s = String::new();
    for e in t.ev.iter() {
        match *e {
            Ev::Alloc(i, z, l) => write!(s, "{{\"e\":\"a\",\"i\":{},\"s\":{},\"l\":{}}},", i, z, l),
            Ev::Free(i, z, l) => write!(s, "{{\"e\":\"f\",\"i\":{},\"s\":{},\"l\":{}}},", i, z, l),
            Ev::Twice(i) => write!(s, "{{\"e\":\"d\",\"i\":{}}},", i),
            Ev::Overrun(i) => write!(s, "{{\"e\":\"o\",\"i\":{}}},", i),
            Ev::Wild => write!(s, "{{\"e\":\"b\"}},"),
            Ev::Mark(c, k, n, m) => write!(s, "{{\"e\":\"{}\",\"k\":{},\"n\":{},\"m\":{}}},", c, k, n, m),
            Ev::Switch => write!(s, "{{\"e\":\"w\"}},"),
        }.unwrap();
    }
    write!(s, "{{\"e\":\"E\",\"n\":{},\"m\":{}}}", t.blocks, t.bytes).unwrap();
    (s, t.total)
}
