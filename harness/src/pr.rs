//! Output driver (C30): all the ways of showing a text, in a process whose
//! output is a pseudo terminal (or not a terminal at all).
use crate::emu::Emu;
use crate::es::Pty;
use crate::mdgen::{self, MdOpts};
use crate::out::*;
use crate::rd::{line_json, shown, skin_json, Styles};
use crate::rng::Rng;
use std::io::Write;
use std::os::fd::RawFd;
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};
use termimad::minimad::{parse_text, Composite, Options, OwningTemplateExpander, TextTemplate};
use termimad::*;

const PATIENCE: Duration = Duration::from_secs(8);

/// what comes out of this process
struct Screen {
    pty: Option<Pty>,
    rx: Receiver<Vec<u8>>,
    w: u16,
    h: u16,
}
impl Screen {
    fn new(tty: bool) -> Screen {
        let (tx, rx) = channel();
        let (pty, fd): (Option<Pty>, RawFd) = if tty {
            let pty = Pty::new();
            unsafe {
                // no translation of what's written
                let mut t: libc::termios = std::mem::zeroed();
                libc::tcgetattr(0, &mut t);
                libc::cfmakeraw(&mut t);
                libc::tcsetattr(0, libc::TCSANOW, &t);
            }
            let fd = pty.master;
            (Some(pty), fd)
        } else {
            let mut fds = [0; 2];
            unsafe {
                assert!(libc::pipe(fds.as_mut_ptr()) == 0);
                libc::dup2(fds[1], 1);
                libc::close(fds[1]);
            }
            (None, fds[0])
        };
        std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            loop {
                let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, 4096) };
                if n <= 0 || tx.send(b[..n as usize].to_vec()).is_err() {
                    break;
                }
            }
        });
        Screen { pty, rx, w: 80, h: 24 }
    }
    fn resize(&mut self, w: u16, h: u16) {
        if let Some(p) = &self.pty {
            p.resize(w, h);
            self.w = w;
            self.h = h;
        }
    }
    /// what has been written since the last time
    fn read(&self) -> Option<String> {
        let mark = b"\x02";
        let n = unsafe { libc::write(1, mark.as_ptr() as *const _, 1) };
        assert_eq!(n, 1);
        let end = Instant::now() + PATIENCE;
        let mut v: Vec<u8> = vec![];
        while v.last() != Some(&2) {
            let b = self.rx.recv_timeout(end.checked_duration_since(Instant::now())?).ok()?;
            v.extend(b);
        }
        v.pop();
        Some(String::from_utf8_lossy(&v).to_string())
    }
}
fn flush() {
    std::io::stdout().flush().unwrap();
}

/// lines of a formatted text
fn lines_json(t: &FmtText) -> String {
    let v: Vec<String> = t
        .lines
        .iter()
        .map(|l| {
            let bw = match l {
                FmtLine::Normal(fc) => fc.spacing.map_or(-1, |s| s.width as i64),
                _ => -1,
            };
            format!("{{\"bw\":{},{}}}", bw, line_json(l))
        })
        .collect();
    format!("[{}]", v.join(","))
}
fn out_lines(s: &str, text: bool, st: &mut Styles) -> String {
    let (parts, nl): (Vec<&str>, bool) =
        if text { (s.split_terminator('\n').collect(), s.is_empty() || s.ends_with('\n')) } else { (vec![s], false) };
    let v: Vec<String> = parts.iter().map(|l| format!("{{{}}}", shown(l, st))).collect();
    format!("\"out\":[{}],\"nl\":{}", v.join(","), nl as u8)
}
/// rows of an area of the screen
fn out_area(s: &str, sw: u16, sh: u16, a: &Area, st: &mut Styles) -> String {
    let mut e = Emu::new(sw as usize, sh as usize);
    e.junk();
    e.feed(s);
    let mut rows = vec![];
    let (mut bad, mut out) = (0, e.outside + e.odd.len() + e.clears);
    if e.sty != Default::default() {
        out += 1;
    }
    for (y, row) in e.grid.iter().enumerate() {
        let (mut c, mut x) = (vec![], vec![]);
        let iny = y >= a.top as usize && y < (a.top + a.height) as usize;
        for (k, cell) in row.iter().enumerate() {
            if iny && k >= a.left as usize && k < (a.left + a.width) as usize {
                if cell.writes != 1 {
                    bad += 1;
                }
                for ch in &cell.chars {
                    c.push((*ch as u32).to_string());
                    x.push(st.idx(&cell.sty).to_string());
                }
            } else if cell.writes > 0 {
                out += 1;
            }
        }
        if iny {
            rows.push(format!("{{\"c\":[{}],\"x\":[{}],\"odd\":0}}", c.join(","), x.join(",")));
        }
    }
    format!("\"out\":[{}],\"bad\":{bad},\"outside\":{out}", rows.join(","))
}

/// a template and its values
type Parts = Vec<(Option<&'static str>, String)>;
fn template(r: &mut Rng) -> (Parts, Vec<(&'static str, String)>) {
    const NAMES: [&str; 4] = ["a", "name", "some-key", "k_2"];
    let value = |r: &mut Rng| {
        let n = r.range(1, 4);
        (0..n).map(|_| *r.pick(&["word", "x", "é", "日本", "longer-word"])).collect::<Vec<_>>().join(" ")
    };
    let mut vals: Vec<(&'static str, String)> = vec![];
    for n in NAMES {
        if r.chance(75) {
            vals.push((n, value(r)));
        }
    }
    let mut parts: Parts = vec![];
    let n = r.range(1, 5);
    for _ in 0..n {
        let mut push = |s: &str| parts.push((None, s.to_string()));
        match r.below(6) {
            0 => push("# "),
            1 => push("* "),
            2 => push("> "),
            3 => push("|"),
            _ => {}
        }
        let row = parts.last().is_some_and(|p| p.1 == "|");
        for _ in 0..r.range(1, 4) {
            parts.push((None, r.pick(&["w ", "some text ", "*it* ", "**bold** and ", "`c` "]).to_string()));
            let b = *r.pick(&["", "**", "*", "`"]);
            parts.push((None, b.to_string()));
            parts.push((Some(*r.pick(&NAMES)), String::new()));
            parts.push((None, format!("{b} end ")));
            if row {
                parts.push((None, "|".to_string()));
            }
        }
        parts.push((None, "\n".to_string()));
    }
    (parts, vals)
}

pub fn child(seed: u64, path: &str) {
    let mut r = Rng::new(seed, "printing");
    let tty = r.chance(80);
    let mut scr = Screen::new(tty);
    if !tty {
        // the default size
        (scr.w, scr.h) = terminal_size();
    }
    let (w0, h0) = (scr.w, scr.h);
    let kind = if r.chance(40) { 0 } else { r.below(6) };
    let sk = mdgen::skin(&mut r, kind);
    let default = kind == 0;
    let mut st = Styles::default();
    let mut evs: Vec<String> = vec![];
    let o = MdOpts { lines: if r.chance(3) { 60 } else { 6 }, words: *r.pick(&[2, 6, 12]), ..MdOpts::default() };
    let md_kept = mdgen::text(&mut r, &o);
    let mut kept: Option<FmtText> = None;
    let steps = r.range(4, 12);
    for _ in 0..steps {
        beat("step");
        let md = if r.chance(10) { r.pick(&["", "\n", "a\n\nb", "\n\n# t"]).to_string() } else { mdgen::text(&mut r, &o) };
        let nw = r.below(8);
        let sn = mdgen::inline(&mut r, &o, nw);
        match r.below(28) {
            0..=3 => {
                let (w, h) = match r.below(6) {
                    0 => (r.range(1, 6), r.range(1, 4)),
                    1 => (r.range(100, 300), r.range(20, 80)),
                    _ => (r.range(5, 70), r.range(2, 30)),
                };
                let (w, h) = (w as u16, h as u16);
                scr.resize(w, h);
                if tty {
                    evs.push(format!("{{\"o\":\"resize\",\"p\":0,\"w\":{w},\"h\":{h}}}"));
                }
            }
            4 => {
                let (w, h) = terminal_size();
                let a = Area::full_screen();
                evs.push(format!("{{\"o\":\"size\",\"p\":0,\"w\":{w},\"h\":{h},\"area\":[{},{},{},{}]}}", a.left, a.top, a.width, a.height));
            }
            5 | 6 => {
                let m = guard("keep", || kept = Some(sk.term_text(&md_kept))).err();
                let rf = FmtText::from(&sk, &md_kept, Some(scr.w as usize));
                evs.push(format!("{{\"o\":\"keep\",\"p\":{},\"fw\":{},\"ref\":{}}}", m.is_some() as u8, scr.w, lines_json(&rf)));
            }
            7 if kept.is_some() => {
                let t = kept.as_ref().unwrap();
                let m = guard("print kept", || print!("{t}")).err();
                flush();
                let s = scr.read();
                evs.push(ev("print_kept", -1, "[]", &m, s.map(|s| out_lines(&s, true, &mut st))));
            }
            8..=12 => {
                // snippets
                let c = Composite::from_inline(&sn);
                let how = *r.pick(if default {
                    &["inline", "print_inline", "write_inline", "write_inline_on", "print_composite", "m_inline", "m_print_inline"] as &[&str]
                } else {
                    &["inline", "print_inline", "write_inline", "write_inline_on", "print_composite"]
                });
                let m = guard(&format!("{how} {sn:?}"), || match how {
                    "inline" => print!("{}", sk.inline(&sn)),
                    "print_inline" => sk.print_inline(&sn),
                    "write_inline" => sk.write_inline(&sn).unwrap(),
                    "write_inline_on" => sk.write_inline_on(&mut std::io::stdout(), &sn).unwrap(),
                    "print_composite" => sk.print_composite(c.clone()),
                    "m_inline" => print!("{}", inline(&sn)),
                    _ => print_inline(&sn),
                })
                .err();
                // write_inline shows it
                let s = if how == "write_inline" { scr.read() } else { None };
                flush();
                let s = if how == "write_inline" { s } else { scr.read() };
                let rf = format!("[{{\"bw\":-1,\"t\":\"n\",\"kind\":\"p\",\"d\":0,\"s\":{}}}]", crate::wr::compounds_json(&c.compounds));
                evs.push(ev(how, -1, &rf, &m, s.map(|s| out_lines(&s, false, &mut st))));
            }
            13 => {
                // raw texts
                let src = format!("{}\n{}", md, r.pick(&["**a** `b`", "# no title", "* no item", "|no|table|", ""]));
                let m = guard("raw", || print!("{}", FmtText::raw_str(&sk, &src, None))).err();
                flush();
                let s = scr.read();
                let ls: Vec<String> = src
                    .lines()
                    .map(|l| format!("{{\"bw\":-1,\"t\":\"n\",\"kind\":\"p\",\"d\":0,\"s\":[{{\"c\":{},\"f\":0}}]}}", cps(l)))
                    .collect();
                if !src.contains('…') {
                    let e = ev("raw", -1, &format!("[{}]", ls.join(",")), &m, s.map(|s| out_lines(&s, true, &mut st)));
                    evs.push(format!("{},\"src\":{}}}", &e[..e.len() - 1], cps(&src)));
                }
            }
            14 => {
                // templates
                let (parts, vals) = template(&mut r);
                let mut tmd = String::new();
                let mut pj = vec![];
                for (name, s) in &parts {
                    match name {
                        None => {
                            tmd.push_str(s);
                            pj.push(format!("{{\"n\":\"\",\"c\":{}}}", cps(s)));
                        }
                        Some(n) => {
                            let hole = format!("${{{n}}}");
                            tmd.push_str(&hole);
                            pj.push(format!("{{\"n\":\"{n}\",\"c\":{}}}", cps(&hole)));
                        }
                    }
                }
                let vj: Vec<String> = vals.iter().map(|(n, v)| format!("{{\"n\":\"{n}\",\"c\":{}}}", cps(v))).collect();
                let how = *r.pick(&["print_expander", "print_owning_expander", "print_owning_expander_md"]);
                let m = guard(&format!("{how} {tmd:?} {vals:?}"), || {
                    let t = TextTemplate::from(&*tmd);
                    if how == "print_expander" {
                        let mut e = t.expander();
                        for (n, v) in &vals {
                            e.set(n, v);
                        }
                        sk.print_expander(e);
                    } else {
                        let mut e = OwningTemplateExpander::new();
                        for (n, v) in &vals {
                            e.set(n, v);
                        }
                        if how == "print_owning_expander" {
                            sk.print_owning_expander(&e, &t);
                        } else {
                            sk.print_owning_expander_md(&e, &tmd[..]);
                        }
                    }
                })
                .err();
                flush();
                let s = scr.read();
                let t = TextTemplate::from(&*tmd);
                let mut x = t.expander();
                for (n, v) in &vals {
                    x.set(n, v);
                }
                let rf = match guard("ref", || lines_json(&FmtText::from_text(&sk, x.expand(), Some(scr.w as usize)))) {
                    Ok(rf) => rf,
                    Err(_) => continue,
                };
                let e = ev(how, scr.w as i64, &rf, &m, s.map(|s| out_lines(&s, true, &mut st)));
                evs.push(format!("{},\"tpl\":[{}],\"vals\":[{}]}}", &e[..e.len() - 1], pj.join(","), vj.join(",")));
            }
            26 | 27 => {
                // views, on the standard output or elsewhere
                let a = Area::new(r.below(4) as u16, r.below(4) as u16, r.range(10, 60) as u16, r.range(3, 12) as u16);
                let n = r.below(20);
                let how = *r.pick(&["mad_view", "text_view", "list_view", "input_field"]);
                let mut b: Vec<u8> = vec![];
                let mut same = true;
                let m = guard(&format!("{how} {a:?} {md:?}"), || match how {
                    "mad_view" => {
                        let mut v = MadView::from(md.clone(), a.clone(), sk.clone());
                        v.try_scroll_lines(n as i32);
                        v.write_on(&mut b).unwrap();
                        v.write().unwrap();
                    }
                    "text_view" => {
                        let t = sk.area_text(&md, &a);
                        let mut v = TextView::from(&a, &t);
                        v.set_scroll(n);
                        v.write_on(&mut b).unwrap();
                        v.write().unwrap();
                    }
                    "list_view" => {
                        let cs: &'static CompoundStyle = Box::leak(Box::new(sk.bold.clone()));
                        let cols = vec![ListViewColumn::new("col", 4, 8, Box::new(move |i: &usize| ListViewCell::new(i.to_string(), cs)))];
                        let mut v = ListView::new(a.clone(), cols, &sk);
                        for i in 0..n {
                            v.add_row(i);
                        }
                        v.update_dimensions();
                        v.try_select_next(n % 2 == 0);
                        v.write_on(&mut b).unwrap();
                        v.write().unwrap();
                    }
                    _ => {
                        let mut f = InputField::new(a.clone());
                        f.new_line_on(crokey::key!(enter));
                        f.set_str(&md);
                        let p = f.display_on(&mut b).unwrap();
                        same = f.display().unwrap() == p;
                    }
                })
                .err();
                // they show themselves
                let s = scr.read();
                let same = same && s.as_ref().is_some_and(|s| s.as_bytes() == b);
                flush();
                evs.push(format!("{},\"same\":{}}}", { let e = ev(how, -1, "[]", &m, s.map(|_| "\"out\":[]".to_string())); e[..e.len() - 1].to_string() }, same as u8));
            }
            15..=18 => {
                // areas
                let a = Area::new(
                    r.below(scr.w as usize) as u16,
                    r.below(scr.h as usize) as u16,
                    1,
                    1,
                );
                let a = Area::new(
                    a.left,
                    a.top,
                    r.range(1, (scr.w - a.left) as usize) as u16,
                    r.range(1, (scr.h - a.top) as usize) as u16,
                );
                let how = *r.pick(&["area_text", "write_in_area", "write_in_area_on"]);
                let rf = match guard("ref", || lines_json(&FmtText::from(&sk, &md, Some(a.width as usize - 1)))) {
                    Ok(rf) => rf,
                    // not the subject
                    Err(_) => continue,
                };
                let m = guard(&format!("{how} {a:?} {md:?}"), || match how {
                    "area_text" => print!("{}", sk.area_text(&md, &a)),
                    "write_in_area" => sk.write_in_area(&md, &a).unwrap(),
                    _ => sk.write_in_area_on(&mut std::io::stdout(), &md, &a).unwrap(),
                })
                .err();
                let s = if how == "write_in_area" { scr.read() } else { None };
                flush();
                let s = if how == "write_in_area" { s } else { scr.read() };
                let s = s.map(|s| {
                    if how == "area_text" {
                        out_lines(&s, true, &mut st)
                    } else {
                        out_area(&s, scr.w, scr.h, &a, &mut st)
                    }
                });
                let e = ev(how, a.width as i64 - 1, &rf, &m, s);
                evs.push(format!("{},\"area\":[{},{},{},{}]}}", &e[..e.len() - 1], a.left, a.top, a.width, a.height));
            }
            _ => {
                let how = *r.pick(if default {
                    &["text", "text_none", "term_text", "print_text", "write_text", "write_text_on", "m_text", "m_term_text", "m_print_text"] as &[&str]
                } else {
                    &["text", "text_none", "text_parsed", "term_text", "print_text", "write_text", "write_text_on"]
                });
                let n = r.range(3, 80);
                let fw = match how {
                    "text" | "text_parsed" => Some(n),
                    "text_none" | "m_text" => None,
                    _ => Some(scr.w as usize),
                };
                let rf = match guard("ref", || lines_json(&FmtText::from(&sk, &md, fw))) {
                    Ok(rf) => rf,
                    Err(_) => continue,
                };
                let m = guard(&format!("{how} {md:?}"), || match how {
                    "text" => print!("{}", sk.text(&md, Some(n))),
                    "text_none" => print!("{}", sk.text(&md, None)),
                    "text_parsed" => print!("{}", FmtText::from_text(&sk, parse_text(&md, Options::default()), Some(n))),
                    "term_text" => print!("{}", sk.term_text(&md)),
                    "print_text" => sk.print_text(&md),
                    "write_text" => sk.write_text(&md).unwrap(),
                    "write_text_on" => sk.write_text_on(&mut std::io::stdout(), &md).unwrap(),
                    "m_text" => print!("{}", text(&md)),
                    "m_term_text" => print!("{}", term_text(&md)),
                    _ => print_text(&md),
                })
                .err();
                let s = if how == "write_text" { scr.read() } else { None };
                flush();
                let s = if how == "write_text" { s } else { scr.read() };
                let e = ev(how, fw.map_or(-1, |w| w as i64), &rf, &m, s.map(|s| out_lines(&s, true, &mut st)));
                evs.push(format!("{},\"n\":{n}}}", &e[..e.len() - 1]));
            }
        }
    }
    st.idx(&Default::default());
    let line = format!("{{\"tty\":{},\"w0\":{w0},\"h0\":{h0},\"sk\":{},\"sty\":{},\"ev\":[{}]}}", tty as u8, skin_json(&sk), st.json(), evs.join(","));
    std::fs::write(path, line).unwrap();
}

fn ev(o: &str, fw: i64, rf: &str, m: &Option<String>, out: Option<String>) -> String {
    let p = if m.is_some() {
        1
    } else if out.is_none() {
        2
    } else {
        0
    };
    format!(
        "{{\"o\":\"{o}\",\"p\":{p},\"msg\":{},\"fw\":{fw},\"ref\":{rf},{}}}",
        jstr(m.as_deref().unwrap_or("")),
        out.unwrap_or_else(|| "\"out\":[]".to_string())
    )
}

pub fn run(seed: u64, _prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    crate::es::children("print-text-child", 8, seed, "", budget, out, "{\"tty\":0,\"w0\":1,\"h0\":1,\"sk\":0,\"sty\":[],\"ev\":[{\"o\":\"died\",\"p\":3}]}", "\"o\":");
}
