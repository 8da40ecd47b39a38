//! Trace output: one JSON line per trace; heartbeat for the hang watchdog.
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static BEAT: AtomicU64 = AtomicU64::new(0);
static WHAT: Mutex<String> = Mutex::new(String::new());
static PANIC: Mutex<String> = Mutex::new(String::new());

/// called before each call into the code under test
pub fn beat(what: &str) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let mut w = WHAT.lock().unwrap();
    w.clear();
    w.push_str(what);
}

pub fn start_watchdog(out: String, secs: u64) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last {
                idle += 1;
                if idle as u64 > 2 * secs {
                    let what = WHAT.lock().map(|w| w.clone()).unwrap_or_default();
                    let _ = std::fs::write(format!("{}.hang", out), &what);
                    eprintln!("HANG {}", what);
                    std::process::exit(3);
                }
            } else {
                last = now;
                idle = 0;
            }
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap() = format!("{}{}", msg, loc);
    }));
}

pub fn last_panic() -> String {
    PANIC.lock().map(|m| m.clone()).unwrap_or_default()
}

/// run code under test, returning the panic message if it panics
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    beat(what);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.lock().unwrap().clone()),
    }
}

pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub traces: usize,
    pub events: usize,
    pub max_bytes: usize,
    pub bytes: usize,
    pub path: String,
}
impl Out {
    pub fn create(path: &str) -> Self {
        Out {
            f: std::io::BufWriter::new(std::fs::File::create(path).expect("out file")),
            traces: 0,
            events: 0,
            max_bytes: usize::MAX,
            bytes: 0,
            path: path.to_string(),
        }
    }
    pub fn line(&mut self, s: &str, events: usize) {
        self.f.write_all(s.as_bytes()).unwrap();
        self.f.write_all(b"\n").unwrap();
        self.traces += 1;
        self.events += events;
        self.bytes += s.len();
    }
    pub fn done(mut self) {
        self.f.flush().unwrap();
        println!("{{\"traces\":{},\"events\":{}}}", self.traces, self.events);
    }
}

/// codepoints of a string, as a JSON array
pub fn cps(s: &str) -> String {
    let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
    format!("[{}]", v.join(","))
}
pub fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
