//! Replays histories of RateMC.tla (frames sent, feedback, silence) into the TFRC rate computation.
use crate::pool;
use std::fmt::Write;
use uflow::verif::internal::{FeedbackData, SendRateComp};

pub fn bits(x: f64) -> String { let b = x.to_bits(); format!("[{},{}]", (b >> 32) as u32 as i32, b as u32 as i32) }

pub fn opt(x: Option<f64>) -> String { x.map_or("[]".to_string(), bits) }

/// "CAP S F,dt,rtt,recv,n,m,limited W,dt ..."
pub fn run(text: &str, idx: u64) -> String {
    let words: Vec<&str> = text.split(' ').filter(|w| !w.is_empty()).collect();
    let cap: u32 = words[0].parse().unwrap();
    let mut ev = String::new();
    let mut now = 0u64;
    let res = pool::guard(|| {
        let mut s = SendRateComp::new(cap);
        for w in &words[1..] {
            let f: Vec<&str> = w.split(',').collect();
            let n = |k: usize| -> u64 { f[k].parse().unwrap() };
            if !ev.is_empty() { ev.push(','); }
            let m = |s: &SendRateComp| s.rto_ms().map_or(-1, |m| m.min(2_000_000_000) as i64);
            match f[0] {
                "S" => { s.notify_frame_sent(now); write!(ev, "{{\"e\":\"N\",\"t\":{}}}", now).unwrap(); }
                "W" => {
                    now += n(1);
                    s.step(now, None, |_| ());
                    write!(ev, "{{\"e\":\"W\",\"t\":{},\"x\":{},\"q\":{},\"m\":{}}}", now, bits(s.send_rate()), opt(s.rtt_s()), m(&s)).unwrap();
                }
                "F" => {
                    now += n(1);
                    let recv = if n(3) == 0x7fff_ffff { u32::MAX } else { n(3) as u32 };
                    let p = n(4) as f64 / n(5) as f64;
                    let mut ps = None;
                    s.step(now, Some(FeedbackData { rtt_ms: n(2), receive_rate: recv, loss_rate: p, rate_limited: n(6) == 1 }), |x| ps = Some(x));
                    write!(ev, "{{\"e\":\"F\",\"t\":{},\"r\":{},\"v\":{},\"p\":{},\"l\":{},\"x\":{},\"q\":{},\"m\":{},\"ps\":{}}}",
                        now, n(2), bits(recv as f64), bits(p), n(6), bits(s.send_rate()), opt(s.rtt_s()), m(&s), opt(ps)).unwrap();
                }
                _ => panic!("HARNESS: unknown action {}", w),
            }
        }
    });
    if let Err(m) = res {
        if ev.ends_with(',') { ev.pop(); }
        if !ev.is_empty() { ev.push(','); }
        write!(ev, "{{\"e\":\"P\",\"m\":\"{}\"}}", m).unwrap();
    }
    format!("{{\"fam\":\"R\",\"job\":\"rate:{}\",\"h\":\"{}\",\"rate\":{},\"ev\":[{}]}}", idx, text, cap.min(2_000_000_000), ev)
}
