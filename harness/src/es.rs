//! Event source driver (C22, C23): real event sources reading what's typed in
//! a pseudo terminal, each in its own process.
use crate::out::*;
use crate::rng::Rng;
use crate::tp::spawn;
use std::os::fd::RawFd;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
use termimad::crossterm::event::*;
use termimad::*;

const PATIENCE: Duration = Duration::from_secs(8);

fn ev_json(e: &Event) -> String {
    match e {
        Event::Key(k) => format!(
            "{{\"k\":\"key\",\"s\":{},\"c\":{},\"m\":{},\"x\":0,\"y\":0,\"kd\":{}}}",
            jstr(&format!("{:?}", k.code)),
            if let KeyCode::Char(c) = k.code { c as u32 } else { 0 },
            k.modifiers.bits(),
            match k.kind {
                KeyEventKind::Press => 0,
                KeyEventKind::Repeat => 1,
                KeyEventKind::Release => 2,
            }
        ),
        Event::Mouse(m) => format!(
            "{{\"k\":\"mouse\",\"s\":\"{:?}\",\"c\":0,\"m\":{},\"x\":{},\"y\":{},\"kd\":0}}",
            m.kind,
            m.modifiers.bits(),
            m.column,
            m.row
        ),
        e => format!("{{\"k\":\"other\",\"s\":{},\"c\":0,\"m\":0,\"x\":0,\"y\":0,\"kd\":0}}", jstr(&format!("{:?}", e))),
    }
}
fn none_json() -> String {
    "{\"k\":\"none\",\"s\":\"\",\"c\":0,\"m\":0,\"x\":0,\"y\":0,\"kd\":0}".to_string()
}

fn comb_json(te: &TimedEvent) -> String {
    let Some(c) = te.key_combination else {
        return "{\"codes\":[],\"m\":0}".to_string();
    };
    let codes: Vec<String> = c
        .codes
        .iter()
        .map(|k| match k {
            KeyCode::Char(c) => format!("[{},\"\"]", *c as u32),
            k => format!("[0,{}]", jstr(&format!("{k:?}"))),
        })
        .collect();
    format!("{{\"codes\":[{}],\"m\":{}}}", codes.join(","), c.modifiers.bits())
}

/// bytes typed, and what they mean (nothing for what isn't understood)
type In = (Vec<u8>, Option<Event>);

fn key(b: &str, code: KeyCode, m: KeyModifiers) -> In {
    (b.as_bytes().to_vec(), Some(Event::Key(KeyEvent::new(code, m))))
}
fn ch(c: char) -> In {
    let m = if c.is_uppercase() { KeyModifiers::SHIFT } else { KeyModifiers::NONE };
    key(&c.to_string(), KeyCode::Char(c), m)
}
fn alt(c: char) -> In {
    let (mut b, e) = ch(c);
    b.insert(0, 27);
    match e {
        Some(Event::Key(mut k)) => {
            k.modifiers |= KeyModifiers::ALT;
            (b, Some(Event::Key(k)))
        }
        _ => unreachable!(),
    }
}
fn ctrl(c: char) -> In {
    key(&((c as u8 - b'a' + 1) as char).to_string(), KeyCode::Char(c), KeyModifiers::CONTROL)
}
/// never discarded
fn sentinel() -> In {
    (b"\x1b[200~sync\x1b[201~".to_vec(), Some(Event::Paste("sync".into())))
}
fn kitty(c: char, m: KeyModifiers, kind: KeyEventKind) -> In {
    let mut mask = 1;
    if m.contains(KeyModifiers::SHIFT) {
        mask += 1;
    }
    if m.contains(KeyModifiers::ALT) {
        mask += 2;
    }
    if m.contains(KeyModifiers::CONTROL) {
        mask += 4;
    }
    let kd = match kind {
        KeyEventKind::Press => 1,
        KeyEventKind::Repeat => 2,
        KeyEventKind::Release => 3,
    };
    (
        format!("\x1b[{};{}:{}u", c as u32, mask, kd).into_bytes(),
        Some(Event::Key(KeyEvent::new_with_kind(KeyCode::Char(c), m, kind))),
    )
}
fn mouse(cb: u8, x: u16, y: u16, up: bool) -> In {
    let b = cb & 3;
    let button = [MouseButton::Left, MouseButton::Middle, MouseButton::Right][(b % 3) as usize];
    let kind = if cb & 64 != 0 {
        if b == 0 { MouseEventKind::ScrollUp } else { MouseEventKind::ScrollDown }
    } else if cb & 32 != 0 {
        if b == 3 { MouseEventKind::Moved } else { MouseEventKind::Drag(button) }
    } else if up {
        MouseEventKind::Up(button)
    } else {
        MouseEventKind::Down(button)
    };
    let mut m = KeyModifiers::NONE;
    if cb & 4 != 0 {
        m |= KeyModifiers::SHIFT;
    }
    if cb & 8 != 0 {
        m |= KeyModifiers::ALT;
    }
    if cb & 16 != 0 {
        m |= KeyModifiers::CONTROL;
    }
    (
        format!("\x1b[<{};{};{}{}", cb, x + 1, y + 1, if up { 'm' } else { 'M' }).into_bytes(),
        Some(Event::Mouse(MouseEvent { kind, column: x, row: y, modifiers: m })),
    )
}

fn plain(r: &mut Rng) -> In {
    match r.below(14) {
        0..=5 => ch(*r.pick(&['a', 'b', '0', '_', '\\', 'é', '日', ' ', '[', '~'])),
        6 => ch(*r.pick(&['A', 'Z', 'É'])),
        7 => key("\r", KeyCode::Enter, KeyModifiers::NONE),
        8 => key("\t", KeyCode::Tab, KeyModifiers::NONE),
        9 => key("\x7f", KeyCode::Backspace, KeyModifiers::NONE),
        10 => key("\x1b[A", KeyCode::Up, KeyModifiers::NONE),
        11 => key("\x1b[3~", KeyCode::Delete, KeyModifiers::NONE),
        12 => key("\x1bOQ", KeyCode::F(2), KeyModifiers::NONE),
        _ => key("\x1b[Z", KeyCode::BackTab, KeyModifiers::SHIFT),
    }
}
/// keys which start or end a sequence with some modifiers only
fn odd_key(r: &mut Rng) -> In {
    let (a, c, s) = (KeyModifiers::ALT, KeyModifiers::CONTROL, KeyModifiers::SHIFT);
    let m = *r.pick(&[a, a | c, a | s, c, s, c | s, a | c | s, KeyModifiers::NONE]);
    kitty(*r.pick(&['_', '\\']), m, KeyEventKind::Press)
}
fn modified(r: &mut Rng) -> In {
    match r.below(8) {
        5 | 6 => odd_key(r),
        7 => {
            // control and alt
            let (mut b, e) = ctrl(*r.pick(&['a', 'x']));
            b.insert(0, 27);
            match e {
                Some(Event::Key(mut k)) => {
                    k.modifiers |= KeyModifiers::ALT;
                    (b, Some(Event::Key(k)))
                }
                _ => unreachable!(),
            }
        }
        0 => alt(*r.pick(&['a', 'b', 'x', 'A'])),
        1 | 2 => ctrl(*r.pick(&['a', 'c', 'd', 'q', 's'])),
        3 => key("\x1b[1;5A", KeyCode::Up, KeyModifiers::CONTROL),
        _ => key("\x1b[1;3D", KeyCode::Left, KeyModifiers::ALT),
    }
}
fn other(r: &mut Rng) -> In {
    match r.below(6) {
        0 => (b"\x1b[I".to_vec(), Some(Event::FocusGained)),
        1 => (b"\x1b[O".to_vec(), Some(Event::FocusLost)),
        2 | 3 => {
            let s = r.pick(&["", "pasted", "a\nb", "é 日"]).to_string();
            (format!("\x1b[200~{s}\x1b[201~").into_bytes(), Some(Event::Paste(s)))
        }
        _ => (b"\x1b[<128;1;1M".to_vec(), None),
    }
}
fn a_kitty(r: &mut Rng) -> In {
    if r.chance(12) {
        let (kd, kind) = *r.pick(&[(1, KeyEventKind::Press), (3, KeyEventKind::Release)]);
        let k = KeyEvent::new_with_kind(KeyCode::Modifier(ModifierKeyCode::LeftShift), KeyModifiers::SHIFT, kind);
        return (format!("\x1b[57441;2:{kd}u").into_bytes(), Some(Event::Key(k)));
    }
    let m = *r.pick(&[KeyModifiers::NONE, KeyModifiers::NONE, KeyModifiers::CONTROL, KeyModifiers::ALT]);
    let k = *r.pick(&[KeyEventKind::Press, KeyEventKind::Press, KeyEventKind::Release, KeyEventKind::Release, KeyEventKind::Repeat]);
    kitty(*r.pick(&['a', 'b', 'c', 'x', ' ']), m, k)
}
fn a_mouse(r: &mut Rng) -> In {
    let (x, y) = *r.pick(&[(3, 4), (3, 4), (3, 4), (4, 3), (3, 3), (4, 4), (0, 0), (300, 4)]);
    let m = if r.chance(85) { 0 } else { *r.pick(&[4, 8, 16, 20]) };
    match r.below(10) {
        0..=3 => mouse(m, x, y, false),
        4..=6 => mouse(m, x, y, true),
        7 => {
            let up = r.chance(50);
            mouse(m + *r.pick(&[1, 2]), x, y, up)
        }
        8 => mouse(m + *r.pick(&[35, 35, 35, 32, 33, 34]), x, y, false),
        _ => mouse(m + *r.pick(&[64, 65]), x, y, false),
    }
}

/// a batch of inputs, of some kind
fn batch(r: &mut Rng, clicks: bool, combine: bool) -> Vec<In> {
    let mut v = vec![];
    let kind = if clicks && r.chance(70) { 3 } else { r.below(8) };
    match kind {
        // a sequence, complete or not
        0 | 1 => {
            if r.chance(40) {
                v.push(plain(r));
            }
            v.push(alt('_'));
            let len = if r.chance(6) { r.range(6, 80) } else { r.below(6) };
            for _ in 0..len {
                v.push(if combine && r.chance(30) { a_kitty(r) } else { plain(r) });
            }
            match r.below(6) {
                0 => v.push(modified(r)),
                1 => v.push(other(r)),
                2 => v.push(a_mouse(r)),
                3 if r.chance(40) => v.push(alt('_')),
                _ => {}
            }
            if r.chance(75) {
                v.push(alt('\\'));
            }
        }
        2 if r.chance(30) => {
            // many short sequences
            for _ in 0..r.range(3, 15) {
                v.push(alt('_'));
                if r.chance(50) {
                    v.push(ch(*r.pick(&['a', 'b', 'é'])));
                }
                v.push(alt('\\'));
            }
        }
        2 => {
            // ends without starts, several sequences
            for _ in 0..r.range(1, 6) {
                v.push(match r.below(10) {
                    0..=2 => alt('_'),
                    3..=5 => alt('\\'),
                    6 => odd_key(r),
                    _ => plain(r),
                });
            }
        }
        3 | 4 => {
            // clicks
            for _ in 0..r.range(1, 6) {
                if r.chance(60) {
                    let (x, y) = *r.pick(&[(3, 4), (3, 4), (3, 4), (4, 4), (3, 5), (4, 3)]);
                    let m = if r.chance(90) { 0 } else { 4 };
                    if r.chance(85) {
                        v.push(mouse(m, x, y, false));
                    }
                    if r.chance(15) {
                        v.push(mouse(32, x + 1, y, false));
                    }
                    if r.chance(85) {
                        v.push(mouse(m, x, y, true));
                    }
                } else {
                    v.push(if r.chance(70) { a_mouse(r) } else { plain(r) });
                }
            }
        }
        5 => {
            for _ in 0..r.range(1, 5) {
                v.push(a_kitty(r));
            }
        }
        _ => {
            for _ in 0..r.range(1, 6) {
                v.push(match r.below(6) {
                    0 => modified(r),
                    1 => other(r),
                    2 => a_mouse(r),
                    _ => plain(r),
                });
            }
        }
    }
    v
}

pub struct Pty {
    pub master: RawFd,
}
impl Pty {
    /// a pseudo terminal, which becomes the one of this process
    pub fn new() -> Pty {
        unsafe {
            let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            assert!(master >= 0, "posix_openpt");
            assert!(libc::grantpt(master) == 0 && libc::unlockpt(master) == 0, "unlockpt");
            let mut name = [0 as libc::c_char; 128];
            assert!(libc::ptsname_r(master, name.as_mut_ptr(), 128) == 0, "ptsname");
            let slave = libc::open(name.as_ptr(), libc::O_RDWR);
            assert!(slave >= 0, "slave");
            libc::ioctl(slave, libc::TIOCSCTTY, 0);
            let ws = libc::winsize { ws_row: 24, ws_col: 80, ws_xpixel: 0, ws_ypixel: 0 };
            libc::ioctl(master, libc::TIOCSWINSZ, &ws);
            libc::dup2(slave, 0);
            libc::dup2(slave, 1);
            libc::close(slave);
            Pty { master }
        }
    }
    fn write(&self, b: &[u8]) {
        let n = unsafe { libc::write(self.master, b.as_ptr() as *const _, b.len()) };
        assert_eq!(n, b.len() as isize, "write");
    }
    pub fn resize(&self, w: u16, h: u16) {
        let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe {
            libc::ioctl(self.master, libc::TIOCSWINSZ, &ws);
        }
    }
    /// what's written on the terminal is read, the questions are answered
    fn answer(&self, kitty: bool) {
        let fd = self.master;
        std::thread::spawn(move || {
            let mut all: Vec<u8> = vec![];
            let mut b = [0u8; 512];
            loop {
                let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, 512) };
                if n <= 0 {
                    break;
                }
                all.extend(&b[..n as usize]);
                if let Some(p) = all.windows(3).position(|w| w == b"\x1b[c") {
                    all.drain(..p + 3);
                    let a: &[u8] = if kitty { b"\x1b[?0u\x1b[?62c" } else { b"\x1b[?62c" };
                    unsafe {
                        libc::write(fd, a.as_ptr() as *const _, a.len());
                    }
                }
            }
        });
    }
}
fn is_raw() -> bool {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(0, &mut t);
        t.c_lflag & (libc::ICANON | libc::ECHO) == 0
    }
}

/// child process: one history of an event source
pub fn child(seed: u64, path: &str, prop: &str) {
    let mut r = Rng::new(seed, "events");
    let clicks = prop == "C23" || r.chance(25);
    let pty = Pty::new();
    let dflt = r.chance(20);
    let combine = !dflt && r.chance(if clicks { 5 } else { 25 });
    let kitty_ok = r.chance(80);
    pty.answer(kitty_ok);
    let options = EventSourceOptions {
        combine_keys: combine,
        mandate_modifier_for_multiple_keys: r.chance(50),
        discard_raw_key_events: r.chance(70),
        discard_mouse_move: r.chance(60),
        discard_mouse_drag: r.chance(40),
    };
    let opt_json = format!(
        "\"dflt\":{},\"mandate\":{},\"raw\":{},\"move\":{},\"drag\":{}",
        dflt as u8,
        options.mandate_modifier_for_multiple_keys as u8,
        options.discard_raw_key_events as u8,
        options.discard_mouse_move as u8,
        options.discard_mouse_drag as u8
    );
    let t0 = Instant::now();
    let us = |t: Instant| t.checked_duration_since(t0).map_or(-1, |d| d.as_micros() as i64);
    let was_raw = is_raw();
    let es = match (dflt, r.chance(50)) {
        (false, _) => EventSource::with_options(options).unwrap(),
        (_, true) => EventSource::new().unwrap(),
        _ => EventSource::with_options(EventSourceOptions::default()).unwrap(),
    };
    let combining = es.supports_multi_key_combinations();
    let (rx, rs, count) = (es.receiver(), es.escape_sequence_receiver(), es.shared_event_count());
    let raw_during = is_raw();
    let mut ins: Vec<String> = vec![];
    let mut evs: Vec<String> = vec![];
    let (mut lo, mut long) = (us(Instant::now()), 0);
    let batches = if r.chance(2) { r.range(60, 120) } else { r.range(3, 9) };
    let mut quit = false;
    let mut left_up: Option<Instant> = None;
    'all: for b in 0..=batches {
        beat("batch");
        let last = b == batches;
        let mut v = if last { vec![] } else { batch(&mut r, clicks, combine) };
        let mut sync = last;
        if r.chance(25) {
            sync = true;
        }
        if sync {
            v.push(sentinel());
        }
        let mut bytes = vec![];
        for (b, e) in &v {
            ins.push(e.as_ref().map_or_else(none_json, ev_json));
            bytes.extend(b);
        }
        for part in [bytes] {
            // one write: the terminal gives the bytes at once
            pty.write(&part);
        }
        let resize = sync && !last && r.chance(15);
        let mut resized = !resize;
        loop {
            // whatever comes; up to the sentinel when there's one
            let wait = if sync { PATIENCE } else { Duration::from_micros(r.range(0, 3000) as u64) };
            let te = match rx.recv_timeout(wait) {
                Ok(te) => te,
                Err(_) => {
                    if sync {
                        evs.push("{\"o\":\"missing\"}".to_string());
                        break 'all;
                    }
                    break;
                }
            };
            beat("event");
            let hi = us(Instant::now());
            if r.chance(60) {
                std::thread::sleep(Duration::from_micros(r.range(50, 1500) as u64));
            }
            let more = rx.len();
            let ck = te.as_click().map_or("[]".to_string(), |(x, y)| format!("[{x},{y}]"));
            let ca = te.is_key(KeyEvent::new(KeyCode::Char('a'), KeyModifiers::CONTROL));
            evs.push(format!(
                "{{\"o\":\"ev\",\"e\":{},\"dbl\":{},\"t\":{},\"lo\":{},\"hi\":{},\"more\":{},\"cnt\":{},\"cb\":{},\"ck\":{},\"ca\":{}}}",
                ev_json(&te.event),
                te.double_click as u8,
                us(te.time),
                lo,
                hi,
                more,
                count.load(Ordering::SeqCst),
                comb_json(&te),
                ck,
                ca as u8
            ));
            let is_sentinel = matches!(&te.event, Event::Paste(s) if s == "sync");
            if let Event::Mouse(MouseEvent { kind: MouseEventKind::Up(MouseButton::Left), .. }) = te.event {
                left_up = Some(te.time);
            }
            if (is_sentinel && r.chance(60)) || (last && is_sentinel) {
                // all the sequences typed before are there
                let l: Vec<String> = rs
                    .try_iter()
                    .map(|s| {
                        let k: Vec<String> = s.keys.iter().map(|k| ev_json(&Event::Key(*k))).collect();
                        let shown: Vec<String> = s.to_string().chars().map(|c| (c as u32).to_string()).collect();
                        format!("{{\"keys\":[{}],\"shown\":[{}]}}", k.join(","), shown.join(","))
                    })
                    .collect();
                evs.push(format!("{{\"o\":\"seqs\",\"l\":[{}]}}", l.join(",")));
            }
            if r.chance(2) || (last && is_sentinel) {
                if r.chance(40) {
                    pty.write(b"abc\x1b_d\x1b\\");
                }
                quit = true;
                break 'all;
            }
            if let Some(up) = left_up {
                // sometimes, the time goes around the delay of double clicks
                if long < 5 && r.chance(if clicks { 30 } else { 4 }) {
                    long += 1;
                    let d = *r.pick(&[200, 450, 520, 600, 660, 685, 703, 720, 760, 850]) + r.below(15) as u64;
                    let t = up + Duration::from_millis(d);
                    let now = Instant::now();
                    if t > now {
                        std::thread::sleep(t - now);
                    }
                    left_up = None;
                }
            }
            lo = us(Instant::now());
            es.unblock(false);
            if is_sentinel {
                if resized {
                    break;
                }
                // nothing is being read: the size of the terminal changes
                std::thread::sleep(Duration::from_millis(5));
                resized = true;
                let (w, h) = (81 + b as u16, 25 + r.below(5) as u16);
                ins.push(ev_json(&Event::Resize(w, h)));
                pty.resize(w, h);
            } else if sync && matches!(te.event, Event::Resize(..)) {
                break;
            }
        }
    }
    if quit {
        let by_drop = r.chance(40);
        let mut es = Some(es);
        if by_drop {
            es.take();
        } else {
            es.as_ref().unwrap().unblock(true);
        }
        let mut got = 0;
        let closed = loop {
            match rx.recv_timeout(PATIENCE) {
                Ok(_) => got += 1,
                Err(e) => break e == termimad::crossbeam::channel::RecvTimeoutError::Disconnected,
            }
        };
        let closed_seq = rs.recv_timeout(PATIENCE) == Err(termimad::crossbeam::channel::RecvTimeoutError::Disconnected) || {
            // sequences nobody had read
            rs.try_iter().count();
            rs.recv_timeout(PATIENCE) == Err(termimad::crossbeam::channel::RecvTimeoutError::Disconnected)
        };
        let cnt = count.load(Ordering::SeqCst);
        drop(es);
        evs.push(format!(
            "{{\"o\":\"quit\",\"got\":{got},\"closed\":{},\"seq\":{},\"cnt\":{cnt},\"raw\":[{},{},{}]}}",
            closed as u8, closed_seq as u8, was_raw as u8, raw_during as u8, is_raw() as u8
        ));
    }
    let line = format!(
        "{{{opt_json},\"asked\":{},\"combining\":{},\"kitty\":{},\"in\":[{}],\"ev\":[{}]}}",
        combine as u8,
        combining as u8,
        kitty_ok as u8,
        ins.join(","),
        evs.join(",")
    );
    std::fs::write(path, line).unwrap();
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    children("es-child", 24, seed, prop, budget, out, "{\"dflt\":0,\"combining\":0,\"in\":[],\"ev\":[{\"o\":\"died\"}]}", "\"o\":");
}

/// runs child processes, each writing a trace, until there are enough events
#[allow(clippy::too_many_arguments)]
pub fn children(cmd: &'static str, threads: usize, seed: u64, prop: &str, budget: usize, out: &mut Out, died: &str, pat: &str) {
    let next = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (tx, rx) = std::sync::mpsc::channel();
    let mut handles = vec![];
    for _ in 0..threads {
        let (next, stop, tx) = (next.clone(), stop.clone(), tx.clone());
        let (base, prop) = (out.path.clone(), prop.to_string());
        handles.push(std::thread::spawn(move || {
            while !stop.load(Ordering::SeqCst) {
                let k = next.fetch_add(1, Ordering::SeqCst);
                let path = format!("{base}.child.{}.{k}", std::process::id());
                let s = (seed.wrapping_mul(1_000_003).wrapping_add(k)).to_string();
                let ok = spawn(&[cmd, "--seed", &s, "--prop", &prop, "--out", &path], "").is_ok_and(|x| x.0);
                let line = std::fs::read_to_string(&path).ok().filter(|_| ok);
                let _ = std::fs::remove_file(&path);
                let _ = std::fs::remove_file(format!("{path}.hang"));
                if tx.send((s, line)).is_err() {
                    break;
                }
            }
        }));
    }
    drop(tx);
    let mut n = 0;
    while n < budget {
        beat("child processes");
        match rx.recv() {
            Ok((_, Some(l))) => {
                let m = l.matches(pat).count();
                n += m;
                out.line(&l, m);
            }
            Ok((s, None)) => {
                n += 1;
                out.line(&format!("{{\"seed\":{},{}", jstr(&s), &died[1..]), 1);
            }
            _ => break,
        }
    }
    stop.store(true, Ordering::SeqCst);
    drop(rx);
    for h in handles {
        let _ = h.join();
    }
}
