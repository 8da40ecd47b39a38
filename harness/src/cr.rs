//! Crop writer driver (C18).
use crate::emu::{linear, style_of, Sty};
use crate::out::*;
use crate::rng::Rng;
use std::collections::HashMap;
use termimad::crossterm::style::{Attribute, Color};
use termimad::*;

fn text(r: &mut Rng, max: usize) -> String {
    let alpha: &[char] = match r.below(6) {
        0 => &['a', 'b', 'c'],
        1 => &['a', '日', '😀'],
        2 => &['a', '日', '\t', '\u{301}'],
        3 => &['é', 'ß', 'Ω', 'a', '\u{200b}'],
        4 => &['a', '\t', ' '],
        _ => &['a', 'é', '日', '\t', '\u{301}', ' ', '😀', '\u{a0}'],
    };
    let n = if r.chance(1) { r.range(250, 700) } else if r.chance(3) { r.range(20, 200) } else { r.below(max + 1) };
    (0..n).map(|_| *r.pick(alpha)).collect()
}

thread_local! {
    static FILLINGS: std::cell::RefCell<HashMap<char, &'static Filling>> = Default::default();
}
fn filling(c: char) -> &'static Filling {
    FILLINGS.with(|f| *f.borrow_mut().entry(c).or_insert_with(|| Box::leak(Box::new(Filling::from_char(c)))))
}

fn fits(r: &mut Rng) -> String {
    let s = text(r, 10);
    let n = r.below(16);
    let head = format!("\"op\":\"fit\",\"s\":{},\"n\":{}", cps(&s), n);
    match guard(&head, || {
        let (bytes, cols) = StrFit::count_fitting(&s, n);
        let (o, oc) = StrFit::make_string(&s, n);
        let (c, cc) = StrFit::make_cow(&s, n);
        format!("\"bytes\":{},\"cols\":{},\"out\":{},\"outs\":{},\"cow\":{},\"cows\":{}", bytes, cols, cps(&o), oc, cps(&c), cc)
    }) {
        Ok(t) => format!("{{{},\"p\":false,{}}}", head, t),
        Err(m) => format!("{{{},\"p\":true,\"msg\":{}}}", head, jstr(&m)),
    }
}

fn filled(r: &mut Rng) -> String {
    let c = *r.pick(&['-', '═', 'é', '😀']);
    let n = match r.below(4) {
        0 => r.below(20),
        1 => r.range(990, 1010),
        2 => r.range(1990, 2010),
        3 if r.chance(5) => r.range(65000, 70000),
        _ => r.below(4000),
    };
    let cs = CompoundStyle::with_fg(Color::AnsiValue(9));
    let styled = r.chance(50);
    let head = format!("\"op\":\"filling\",\"s\":{},\"n\":{}", cps(&c.to_string()), n);
    match guard(&head, || {
        let mut b: Vec<u8> = vec![];
        if styled {
            filling(c).queue_styled(&mut b, &cs, n).unwrap();
        } else {
            filling(c).queue_unstyled(&mut b, n).unwrap();
        }
        let (v, odd) = linear(&String::from_utf8(b).unwrap());
        let want = if styled { style_of(&format!("{}", cs.apply_to('x'))) } else { Sty::default() };
        let odd = odd + v.iter().filter(|x| x.0 != c || x.1 != want).count();
        (v.len(), odd)
    }) {
        Ok((n2, odd)) => format!("{{{},\"p\":false,\"out\":{},\"odd\":{}}}", head, n2, odd),
        Err(m) => format!("{{{},\"p\":true,\"msg\":{}}}", head, jstr(&m)),
    }
}

/// texts in spacings, backgrounds
fn padded(r: &mut Rng) -> String {
    use termimad::minimad::Alignment;
    let cs = CompoundStyle::with_fgbg(Color::AnsiValue(9), Color::AnsiValue(10));
    let w = r.below(12);
    let (al, name) = *r.pick(&[(Alignment::Left, "l"), (Alignment::Right, "r"), (Alignment::Center, "c"), (Alignment::Unspecified, "u")]);
    let bg = r.chance(20);
    let counted = r.chance(50);
    // only texts of narrow chars can be cut
    let narrow = r.chance(60);
    let n = r.below(if narrow { 16 } else { 5 });
    let mut s: String = (0..n).map(|_| *r.pick(if narrow { &['a', 'é', 'Ω', ' ', '─'] as &[char] } else { &['a', '日', '\u{301}', '😀'] })).collect();
    let len = unicode_width::UnicodeWidthStr::width(&*s);
    if !narrow && (!counted || len >= w) {
        s.clear();
    }
    if bg {
        s.clear();
    }
    let len = unicode_width::UnicodeWidthStr::width(&*s);
    let head = format!("\"op\":\"{}\",\"s\":{},\"n\":{},\"al\":\"{}\"", if bg { "bg" } else { "pad" }, cps(&s), w, name);
    match guard(&head, || {
        let mut b: Vec<u8> = vec![];
        let sp = Spacing { width: w, align: al };
        if bg {
            fill_bg(&mut b, w, Color::AnsiValue(10)).unwrap();
            // the background stays set
            b.extend(b"\x1b[0m");
        } else if counted {
            sp.write_counted_str(&mut b, &s, len, &cs).unwrap();
        } else {
            sp.write_str(&mut b, &s, &cs).unwrap();
        }
        let (v, odd) = linear(&String::from_utf8(b).unwrap());
        let mut want = style_of(&format!("{}", cs.apply_to('x')));
        if bg {
            want.fg = Sty::default().fg;
        }
        let odd = odd + v.iter().filter(|x| x.1 != want).count();
        (v.iter().map(|x| x.0).collect::<String>(), odd)
    }) {
        Ok((o, odd)) => format!("{{{},\"p\":false,\"out\":{},\"odd\":{}}}", head, cps(&o), odd),
        Err(m) => format!("{{{},\"p\":true,\"msg\":{}}}", head, jstr(&m)),
    }
}

fn one(r: &mut Rng, out: &mut Out) {
    let allowed = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 40, 3000]);
    let tab: &'static str = if r.chance(80) { "  " } else { *r.pick(&["-", "", "日", "a  ", "→ "]) };
    let mut cs = CompoundStyle::with_fgbg(Color::AnsiValue(9), Color::AnsiValue(10));
    cs.add_attr(Attribute::Bold);
    let sty = style_of(&format!("{}", cs.apply_to('x')));
    let mut b: Vec<u8> = vec![];
    let mut evs = vec![];
    let mut left = allowed;
    let n = r.range(2, 10);
    for _ in 0..n {
        if r.chance(10) {
            evs.push(fits(r));
            continue;
        }
        if r.chance(8) {
            evs.push(padded(r));
            continue;
        }
        if r.chance(2) {
            evs.push(filled(r));
            continue;
        }
        let styled = r.chance(50);
        // a color alone may be set before
        let color = if styled { 0 } else { r.below(8) };
        let mut cols = 0;
        let mut cropped: Option<String> = None;
        let k = r.below(20);
        let (op, s, n): (&str, String, usize) = match k {
            0..=6 => ("str", text(r, 7), 0),
            7..=12 => {
                let c = text(r, 5).chars().next().unwrap_or('\t');
                ("char", c.to_string(), 0)
            }
            13..=14 => {
                let n = r.below(10);
                ("g", (0..n).map(|_| *r.pick(&['a', 'é', 'Ω', '─'])).collect(), 0)
            }
            15..=16 => ("rep", r.pick(&['-', '═', '日']).to_string(), if r.chance(5) { 2500 } else { r.below(6) }),
            17 => ("fill", r.pick(&['-', '═', ' ', '日']).to_string(), 0),
            _ => ("crop", text(r, 7), 0),
        };
        let head = format!("\"op\":\"{}\",\"s\":{},\"n\":{}", op, cps(&s), n);
        b.clear();
        let res = guard(&format!("{} {} {}", left, styled, head), || {
            let mut cw = CropWriter::new(&mut b, left);
            cw.tab_replacement = tab;
            match color {
                1 => cw.queue_fg(&cs).unwrap(),
                2 => cw.queue_bg(&cs).unwrap(),
                3 => {
                    cw.queue_bg(&cs).unwrap();
                    cw.queue_fg(&cs).unwrap();
                }
                _ => {}
            }
            let c = s.chars().next().unwrap_or(' ');
            match (op, styled) {
                ("str", true) => cw.queue_str(&cs, &s).unwrap(),
                ("str", false) => cw.queue_unstyled_str(&s).unwrap(),
                ("char", true) => cw.queue_char(&cs, c).unwrap(),
                ("char", false) => cw.queue_unstyled_char(c).unwrap(),
                ("g", true) => cw.queue_g_string(&cs, s.clone()).unwrap(),
                ("g", false) => cw.queue_unstyled_g_string(s.clone()).unwrap(),
                ("rep", true) => cw.repeat(&cs, filling(c), n).unwrap(),
                ("rep", false) => cw.repeat_unstyled(filling(c), n).unwrap(),
                ("fill", true) if c == ' ' => cw.fill_with_space(&cs).unwrap(),
                ("fill", true) => cw.fill(&cs, filling(c)).unwrap(),
                ("fill", false) => cw.fill_unstyled(filling(c)).unwrap(),
                _ => {
                    let (x, w) = cw.cropped_str(&s);
                    cols = w;
                    cropped = Some(x.to_string());
                }
            }
            (cw.allowed, cw.is_full())
        });
        match res {
            Ok((l, full)) => {
                left = l;
                if color > 0 {
                    // colors stay set
                    b.extend(b"\x1b[0m");
                }
                let (v, odd) = linear(&String::from_utf8_lossy(&b));
                let o: String = cropped.unwrap_or_else(|| v.iter().map(|x| x.0).collect());
                let mut want = if styled { sty.clone() } else { Sty::default() };
                if color == 1 || color == 3 {
                    want.fg = sty.fg.clone();
                }
                if color == 2 || color == 3 {
                    want.bg = sty.bg.clone();
                }
                let bad = v.iter().filter(|x| x.1 != want).count();
                evs.push(format!(
                    "{{{},\"p\":false,\"out\":{},\"left\":{},\"full\":{},\"odd\":{},\"bad\":{},\"cols\":{}}}",
                    head,
                    cps(&o),
                    left,
                    full,
                    odd,
                    bad,
                    cols
                ));
            }
            Err(m) => {
                evs.push(format!("{{{},\"p\":true,\"msg\":{}}}", head, jstr(&m)));
                break;
            }
        }
    }
    let s = format!("{{\"allowed\":{},\"tab\":{},\"ev\":[{}]}}", allowed, cps(tab), evs.join(","));
    out.line(&s, evs.len());
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, prop);
    while out.events < budget {
        one(&mut r, out);
    }
}
