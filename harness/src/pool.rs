//! Worker threads with panic capture and a watchdog for calls which never return.
use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local!(static PANIC: RefCell<String> = RefCell::new(String::new()));

pub fn note_panic(i: &std::panic::PanicHookInfo) {
    let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
    let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let s: String = format!("{} at {}", msg, loc).chars().map(|c| if c == '"' || c == '\\' || c.is_control() { '\'' } else { c }).take(300).collect();
    PANIC.with(|p| *p.borrow_mut() = s);
}

/// Runs `f`; a panic becomes an error message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

/// Drops a value, ignoring panics of its destructor
pub fn forget_on_panic<T>(v: T) { let _ = guard(move || drop(v)); }

pub const HANG_S: u64 = 40;

/// Runs jobs 0..n on `threads` threads; each returns lines, which are written in job order. A job
/// running for more than HANG_S seconds is reported as hanging, and the process ends at once.
pub fn run(n: usize, threads: usize, out: &str, f: impl Fn(usize) -> Vec<String> + Send + Sync + 'static) {
    let f = Arc::new(f);
    let next = Arc::new(AtomicUsize::new(0));
    let res: Arc<Mutex<Vec<Option<Vec<String>>>>> = Arc::new(Mutex::new(vec![None; n]));
    let t0 = Instant::now();
    let beats: Arc<Vec<(AtomicUsize, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect());
    let live = Arc::new(AtomicUsize::new(threads));
    for w in 0..threads {
        let (f, next, res, beats, live) = (f.clone(), next.clone(), res.clone(), beats.clone(), live.clone());
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            loop {
                let j = next.fetch_add(1, Ordering::SeqCst);
                if j >= n { break; }
                beats[w].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                beats[w].0.store(j, Ordering::SeqCst);
                let lines = match guard(|| f(j)) {
                    Ok(l) => l,
                    Err(m) => vec![format!("{{\"fam\":\"P\",\"job\":\"{}\",\"ev\":[{{\"e\":\"P\",\"m\":\"{}\"}}]}}", j, m)],
                };
                beats[w].0.store(usize::MAX, Ordering::SeqCst);
                res.lock().unwrap()[j] = Some(lines);
            }
            live.fetch_sub(1, Ordering::SeqCst);
        }).unwrap();
    }
    let mut hung = Vec::new();
    while live.load(Ordering::SeqCst) > 0 && hung.is_empty() {
        std::thread::sleep(Duration::from_millis(5));
        let now = t0.elapsed().as_millis() as u64;
        for b in beats.iter() {
            let j = b.0.load(Ordering::SeqCst);
            if j != usize::MAX && now.saturating_sub(b.1.load(Ordering::SeqCst)) > HANG_S * 1000 { hung.push(j); }
        }
    }
    let mut w: Box<dyn Write> = if out.is_empty() { Box::new(std::io::stdout()) } else { Box::new(std::io::BufWriter::new(std::fs::File::create(out).unwrap())) };
    for (j, r) in res.lock().unwrap().iter().enumerate() {
        if let Some(lines) = r { for l in lines { writeln!(w, "{}", l).unwrap(); } }
        if hung.contains(&j) { writeln!(w, "{{\"fam\":\"P\",\"job\":\"{}\",\"ev\":[{{\"e\":\"H\"}}]}}", j).unwrap(); }
    }
    w.flush().unwrap();
    drop(w);
    std::process::exit(0);
}
