//! Ticker driver (C21): real beams, started and stopped, with what's received.
use crate::out::*;
use crate::rng::Rng;
use std::sync::mpsc;
use std::time::{Duration, Instant};
use termimad::*;

/// longest wait for a tick which should come (only reached on a failure)
const PATIENCE: Duration = Duration::from_secs(8);

struct H {
    t0: Instant,
    evs: Vec<String>,
}
impl H {
    fn now_down(&self) -> u64 {
        self.t0.elapsed().as_micros() as u64
    }
    fn tick(&mut self, pay: u32) {
        let t = self.t0.elapsed().as_nanos().div_ceil(1000);
        self.evs.push(format!("{{\"o\":\"tick\",\"pay\":{pay},\"t\":{t}}}"));
    }
}
/// what's needed to know what to wait for
struct B {
    id: usize,
    n: Option<usize>,
    pay: u32,
    seen: usize,
    live: bool,
    per: u64,
}

fn seen(bs: &mut [B], pay: u32) {
    for b in bs {
        if b.pay == pay {
            b.seen += 1;
        }
    }
}

/// one history
fn history(seed: u64, k: usize) -> (String, usize) {
    let mut r = Rng::new(seed, &format!("tick{k}"));
    let mut h = H { t0: Instant::now(), evs: vec![] };
    let mut ticker: Ticker<u32> = Ticker::new();
    let rx = ticker.tick_receiver.clone();
    let mut bs: Vec<B> = vec![];
    let big = r.chance(4);
    let ops = if big { r.range(20, 50) } else { r.range(3, 14) };
    let maxb = if big { 24 } else { 6 };
    let mut failed = false;
    for _ in 0..ops {
        match r.below(10) {
            0..=3 if bs.len() < maxb => {
                let n = match r.below(4) {
                    0 => None,
                    1 => Some(1),
                    _ if r.chance(4) => Some(r.range(200, 300)),
                    _ => Some(r.below(7)),
                };
                let per = if n.map_or(false, |n| n > 100) { r.range(0, 50) as u64 } else if n.is_none() { r.range(800, 6000) as u64 } else { *r.pick(&[0, 1, 500, 1000, 2500, 4000, 8000, 20000]) };
                let pay = bs.len() as u32 + 1;
                let period = Duration::from_micros(per);
                let at = h.now_down();
                let how = r.below(3);
                let id = match n {
                    Some(1) if how == 0 => ticker.tick_once(pay, period),
                    Some(n) if how < 2 => ticker.tick_several_times(pay, period, n),
                    _ => ticker.tick_infinitely(pay, period),
                };
                let n = match n {
                    Some(n) if how < 2 => Some(n),
                    _ => None,
                };
                if n.is_none() && per < 800 {
                    // a flood: stopped at once
                    ticker.stop_beam(id);
                    let m = rx.len();
                    bs.push(B { id, n, pay, seen: 0, live: false, per });
                    h.evs.push(format!("{{\"o\":\"start\",\"id\":{id},\"n\":-1,\"per\":{per},\"t\":{at},\"pay\":{pay}}}"));
                    h.evs.push(format!("{{\"o\":\"stop\",\"id\":{id}}}"));
                    for _ in 0..m {
                        if let Ok(p) = rx.try_recv() {
                            if p != pay || h.evs.len() < 400 {
                                seen(&mut bs, p);
                                h.tick(p);
                            }
                        }
                    }
                    h.evs.push("{\"o\":\"settled\"}".to_string());
                    continue;
                }
                bs.push(B { id, n, pay, seen: 0, live: true, per });
                let nn = n.map_or(-1, |n| n as i64);
                h.evs.push(format!("{{\"o\":\"start\",\"id\":{id},\"n\":{nn},\"per\":{per},\"t\":{at},\"pay\":{pay}}}"));
            }
            4..=6 => {
                // receive for a while
                let until = Instant::now() + Duration::from_micros(r.range(100, 15000) as u64);
                while let Ok(p) = rx.recv_deadline(until) {
                    seen(&mut bs, p);
                    h.tick(p);
                    if h.evs.len() > 300 {
                        break;
                    }
                }
            }
            7 | 8 if !bs.is_empty() => {
                // stop one: running, finished, already stopped, or unknown
                let j = r.below(bs.len());
                let id = if r.chance(8) { 999 } else { bs[j].id };
                ticker.stop_beam(id);
                let m = rx.len();
                for b in &mut bs {
                    if b.id == id {
                        b.live = false;
                    }
                }
                h.evs.push(format!("{{\"o\":\"stop\",\"id\":{id}}}"));
                for _ in 0..m {
                    if let Ok(p) = rx.try_recv() {
                        seen(&mut bs, p);
                        h.tick(p);
                    }
                }
                h.evs.push("{\"o\":\"settled\"}".to_string());
            }
            9 if r.chance(30) => {
                ticker.stop_all_beams();
                let m = rx.len();
                bs.iter_mut().for_each(|b| b.live = false);
                h.evs.push("{\"o\":\"stopall\"}".to_string());
                for _ in 0..m {
                    if let Ok(p) = rx.try_recv() {
                        seen(&mut bs, p);
                        h.tick(p);
                    }
                }
                h.evs.push("{\"o\":\"settled\"}".to_string());
            }
            _ => std::thread::sleep(Duration::from_micros(r.range(0, 6000) as u64)),
        }
    }
    // what must come comes
    let min = r.range(1, 6);
    let before: Vec<usize> = bs.iter().map(|b| b.seen).collect();
    let mut last = Instant::now();
    loop {
        let done = bs.iter().enumerate().all(|(j, b)| {
            !b.live || match b.n {
                Some(n) => b.seen >= n,
                None => b.seen >= before[j] + min,
            }
        });
        if done {
            break;
        }
        if last.elapsed() > PATIENCE {
            failed = true;
            break;
        }
        if let Ok(p) = rx.recv_timeout(Duration::from_millis(100)) {
            // progress is a tick of a beam which isn't complete
            if bs.iter().any(|b| b.pay == p && b.live && b.n.is_some_and(|n| b.seen < n) || b.n.is_none() && b.seen < 1000) {
                last = Instant::now();
            }
            seen(&mut bs, p);
            if h.evs.len() < 30000 {
                h.tick(p);
            }
        }
    }
    let mins: Vec<String> = bs.iter().enumerate().map(|(j, _)| (before[j] + min).to_string()).collect();
    h.evs.push(format!("{{\"o\":\"complete\",\"min\":[{}],\"failed\":{}}}", mins.join(","), failed as u8));
    // nothing more comes from those which are complete or stopped
    let grace = Duration::from_micros(3 * bs.iter().filter(|b| !b.live || b.n.is_some()).map(|b| b.per).max().unwrap_or(0) + 3000);
    let until = Instant::now() + grace;
    while let Ok(p) = rx.recv_deadline(until) {
        h.tick(p);
        if h.evs.len() > 34000 {
            break;
        }
    }
    // when the ticker is dropped, all stops and the channel closes
    drop(ticker);
    let m = rx.len();
    h.evs.push("{\"o\":\"stopall\"}".to_string());
    for _ in 0..m {
        if let Ok(p) = rx.try_recv() {
            h.tick(p);
        }
    }
    h.evs.push("{\"o\":\"settled\"}".to_string());
    let end = Instant::now() + PATIENCE;
    let closed = loop {
        match rx.recv_deadline(end) {
            Ok(p) => {
                h.tick(p);
                if h.evs.len() > 38000 {
                    break false;
                }
            }
            Err(e) => break e == termimad::crossbeam::channel::RecvTimeoutError::Disconnected,
        }
    };
    h.evs.push(format!("{{\"o\":\"closed\",\"ok\":{}}}", closed as u8));
    let n = h.evs.len();
    (format!("{{\"ev\":[{}]}}", h.evs.join(",")), n)
}

pub fn run(seed: u64, _prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let threads = 24;
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (tx, rx) = mpsc::channel();
    for _ in 0..threads {
        let (next, stop, tx) = (next.clone(), stop.clone(), tx.clone());
        std::thread::spawn(move || {
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let x = std::panic::catch_unwind(|| history(seed, k));
                if tx.send((k, x.ok())).is_err() {
                    break;
                }
            }
        });
    }
    drop(tx);
    let mut n = 0;
    while n < budget {
        beat("beams");
        match rx.recv() {
            Ok((_, Some((s, m)))) => {
                n += m;
                out.line(&s, m);
            }
            _ => {
                n += 1;
                out.line("{\"ev\":[{\"o\":\"panic\"}]}", 1);
            }
        }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
}
