//! Areas, rectangles and progress bars driver (C27, C28).
use crate::emu::Emu;
use crate::out::*;
use crate::rng::Rng;
use termimad::crossterm::style::{Attribute, Color};
use termimad::*;

fn area(a: &Area) -> String {
    format!("[{},{},{},{}]", a.left, a.top, a.width, a.height)
}
/// an event: the closure gives its result
fn ev(head: String, f: impl FnOnce() -> String) -> String {
    match guard(&head, f) {
        Ok(r) => format!("{{{head},{r},\"p\":0}}"),
        Err(m) => format!("{{{head},\"msg\":{},\"p\":1}}", jstr(&m)),
    }
}
fn dim(r: &mut Rng, large: bool) -> u16 {
    if large {
        *r.pick(&[0, 1, 2, 255, 256, 1000, 20000, 32767, 32768])
    } else {
        r.below(9) as u16
    }
}
fn areas(r: &mut Rng, n: usize) -> String {
    let large = r.chance(20);
    let mut a = Area::new(dim(r, large), dim(r, large), dim(r, large).min(32767), dim(r, large).min(32767));
    let mut evs = vec![];
    let start = area(&a);
    for _ in 0..n {
        evs.push(match r.below(4) {
            0 => {
                let dx = r.below(a.width as usize / 2 + 1) as u16;
                let dy = r.below(a.height as usize / 2 + 1) as u16;
                ev(format!("\"o\":\"pad\",\"v\":[{dx},{dy}]"), || {
                    a.pad(dx, dy);
                    format!("\"r\":{}", area(&a))
                })
            }
            1 => {
                let m = match r.below(3) {
                    0 => a.width.saturating_sub(1),
                    1 => r.below(a.width as usize + 3) as u16,
                    _ => dim(r, large),
                };
                ev(format!("\"o\":\"padmax\",\"v\":[{m}]"), || {
                    a.pad_for_max_width(m);
                    format!("\"r\":{}", area(&a))
                })
            }
            2 => {
                let x = (a.left + r.below(a.width as usize + 2) as u16).saturating_sub(r.below(2) as u16);
                let y = (a.top + r.below(a.height as usize + 2) as u16).saturating_sub(r.below(2) as u16);
                ev(format!("\"o\":\"in\",\"v\":[{x},{y}]"), || {
                    format!("\"r\":[{},{},{}]", a.contains(x, y), a.right(), a.bottom())
                })
            }
            _ => {
                a = match r.below(8) {
                    0 => Area::uninitialized(),
                    1 => Area::default(),
                    _ => Area::new(dim(r, large), dim(r, large), dim(r, large).min(32767), dim(r, large).min(32767)),
                };
                ev("\"o\":\"new\",\"v\":[]".into(), || format!("\"r\":{}", area(&a)))
            }
        });
    }
    format!("{{\"a\":{start},\"ev\":[{}]}}", evs.join(","))
}

fn rects(r: &mut Rng, n: usize) -> String {
    let kinds: [(&str, &'static RectBorderStyle); 4] = [
        ("bland", BORDER_STYLE_BLAND),
        ("half", BORDER_STYLE_HALF_WIDTH_OUTSIDE),
        ("square", BORDER_STYLE_MIDDLE_SQUARE_LINE),
        ("round", BORDER_STYLE_MIDDLE_ROUND_LINE),
    ];
    let mut evs = vec![];
    for _ in 0..n {
        let big = r.chance(4);
        let (sw, sh) = match (big, r.chance(50)) {
            (false, _) => (16usize, 12usize),
            (_, true) => (320, 12),
            _ => (16, 300),
        };
        let (w, h) = if big { (r.range(2, sw), r.range(2, sh)) } else { (r.range(2, 12), r.range(2, 9)) };
        let (x, y) = (r.below(sw - w + 1), r.below(sh - h + 1));
        let mut cs = CompoundStyle::default();
        if r.chance(60) {
            cs.set_fg(Color::AnsiValue(r.below(256) as u8));
        }
        if r.chance(60) {
            cs.set_bg(Color::AnsiValue(r.below(256) as u8));
        }
        if r.chance(30) {
            cs.add_attr(Attribute::Bold);
        }
        let k = r.below(5);
        let fill = r.chance(50);
        let name = if k == 4 { "bland" } else { kinds[k].0 };
        let a = Area::new(x as u16, y as u16, w as u16, h as u16);
        evs.push(ev(format!("\"o\":\"rect\",\"v\":{},\"fill\":{fill},\"border\":\"{name}\",\"screen\":[{sw},{sh}]", area(&a)), || {
            let mut rect = Rect::new(a.clone(), cs.clone());
            if k < 4 {
                rect.set_border_style(kinds[k].1);
            }
            if fill {
                rect.set_fill(true);
            }
            let mut b = vec![];
            rect.draw(&mut b).unwrap();
            let mut e = Emu::new(sw, sh);
            e.feed(&String::from_utf8_lossy(&b));
            let want = crate::emu::style_of(&cs.apply_to("x").to_string());
            let mut rows = vec![];
            let mut bad = 0;
            for row in &e.grid {
                let mut v = vec![];
                for c in row {
                    v.push(c.chars.first().map(|c| *c as u32).unwrap_or(0).to_string());
                    if c.writes > 1 || c.chars.len() > 1 || (c.writes == 1 && c.sty != want) {
                        bad += 1;
                    }
                }
                rows.push(format!("[{}]", v.join(",")));
            }
            format!("\"r\":[{}],\"bad\":{},\"odd\":{}", rows.join(","), bad, e.odd.len() + e.outside + e.clears)
        }));
    }
    format!("{{\"a\":[0,0,0,0],\"ev\":[{}]}}", evs.join(","))
}

/// a bar showing num/den
fn bar(r: &mut Rng, len: usize, num: usize, den: usize) -> String {
    let part = num as f32 / den as f32;
    let w = match r.below(3) {
        0 => -1i32,
        1 => len as i32,
        _ => r.below(len + 4) as i32,
    };
    let al = *r.pick(&["d", "l", "c", "r"]);
    ev(format!("\"o\":\"bar\",\"v\":[{len},{num},{den},{w}],\"al\":\"{al}\""), || {
        let b = ProgressBar::new(part, len);
        let n = w.max(0) as usize;
        let s = match (w, al) {
            (-1, _) => b.to_string(),
            (_, "d") => format!("{b:n$}"),
            (_, "l") => format!("{b:<n$}"),
            (_, "c") => format!("{b:^n$}"),
            _ => format!("{b:>n$}"),
        };
        format!("\"r\":{}", cps(&s))
    })
}
fn bars(r: &mut Rng, n: usize) -> String {
    let mut evs = vec![];
    for _ in 0..n {
        let den = match r.below(3) {
            0 => r.range(1, 100),
            1 => 1 << r.range(1, 8),
            _ => 1 << r.range(1, 14),
        };
        let len = match r.below(100) {
            0..=79 => r.below(12),
            80..=97 => r.below(250),
            _ => r.below(3000),
        };
        let num = match r.below(6) {
            0 => 0,
            1 => den,
            2 => den - 1,
            _ => r.below(den + 1),
        };
        evs.push(bar(r, len, num, den));
    }
    format!("{{\"a\":[0,0,0,0],\"ev\":[{}]}}", evs.join(","))
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, &format!("{prop}geometry"));
    let mut ev = 0;
    if prop == "C28" {
        // all the small ones
        for len in 0..=6 {
            for den in [1, 2, 3, 5, 8, 16, 48] {
                let v: Vec<String> = (0..=den).map(|num| bar(&mut r, len, num, den)).collect();
                ev += v.len();
                out.line(&format!("{{\"a\":[0,0,0,0],\"ev\":[{}]}}", v.join(",")), v.len());
            }
        }
    }
    while ev < budget {
        let n = 10;
        let t = if prop == "C28" {
            bars(&mut r, n)
        } else if r.chance(50) {
            areas(&mut r, n)
        } else {
            rects(&mut r, n)
        };
        out.line(&t, n);
        ev += n;
    }
}
