//! Text view and mad view driver (properties C11, C12), and the scrollbar
//! computations (C13).
use crate::emu::*;
use crate::mdgen::{self, MdOpts};
use crate::out::*;
use crate::rng::Rng;
use std::collections::HashMap;
use termimad::crossterm::event::{KeyCode, KeyEvent, KeyModifiers};
use termimad::*;

/// identifies equal values by a number
#[derive(Default)]
struct Intern(HashMap<Vec<(char, Sty)>, usize>);
impl Intern {
    fn id(&mut self, k: Vec<(char, Sty)>) -> usize {
        let n = self.0.len() + 1;
        *self.0.entry(k).or_insert(n)
    }
}

fn row_cells(e: &Emu, y: usize, x0: usize, x1: usize) -> Vec<(char, Sty)> {
    let mut v = vec![];
    for x in x0..x1 {
        let c = &e.grid[y][x];
        if c.cont {
            continue;
        }
        for &ch in &c.chars {
            v.push((ch, c.sty.clone()));
        }
    }
    v
}

/// the rows of the lines when drawn alone in the given width
fn lines_alone(it: &mut Intern, skin: &MadSkin, text: &FmtText, width: usize) -> Vec<usize> {
    text.lines
        .iter()
        .map(|l| {
            let mut e = Emu::new(400, 1);
            e.feed(&format!("{}", DisplayableLine::new(skin, l, Some(width))));
            let x = e.x;
            it.id(row_cells(&e, 0, 0, x))
        })
        .collect()
}
fn blank_row(it: &mut Intern, skin: &MadSkin, width: usize) -> usize {
    let mut e = Emu::new(400, 1);
    for _ in 0..width {
        e.feed(&format!("{}", skin.paragraph.compound_style.apply_to(' ')));
    }
    let x = e.x;
    it.id(row_cells(&e, 0, 0, x))
}
fn ids(v: &[usize]) -> String {
    let v: Vec<String> = v.iter().map(|n| n.to_string()).collect();
    format!("[{}]", v.join(","))
}

struct Tables {
    n: usize,
    full: Vec<usize>,
    narrow: Vec<usize>,
    bfull: usize,
    bnarrow: usize,
}
impl Tables {
    fn new(it: &mut Intern, skin: &MadSkin, text: &FmtText, w: usize) -> Self {
        Tables {
            n: text.lines.len(),
            full: lines_alone(it, skin, text, w),
            narrow: lines_alone(it, skin, text, w - 1),
            bfull: blank_row(it, skin, w),
            bnarrow: blank_row(it, skin, w - 1),
        }
    }
    fn not_drawn(text: &FmtText) -> Self {
        Tables { n: text.lines.len(), full: vec![], narrow: vec![], bfull: 0, bnarrow: 0 }
    }
    fn json(&self) -> String {
        format!(
            "\"n\":{},\"full\":{},\"narrow\":{},\"bf\":{},\"bn\":{}",
            self.n,
            ids(&self.full),
            ids(&self.narrow),
            self.bfull,
            self.bnarrow
        )
    }
}

/// what is drawn: row identifiers of the whole width and of all but the last
/// column, and the last column
fn drawn(it: &mut Intern, area: &Area, txt: &str, nm: &Names, last_only: bool) -> String {
    let (l, t, w, h) = (area.left as usize, area.top as usize, area.width as usize, area.height as usize);
    let mut e = Emu::new(l + w + 6, t + h + 4);
    e.junk();
    e.feed(txt);
    let o = e.observe(l, t, w, h, nm);
    let mut full = vec![];
    let mut narrow = vec![];
    let mut last = vec![];
    for y in t..t + h {
        full.push(it.id(row_cells(&e, y, l, l + w)));
        narrow.push(it.id(row_cells(&e, y, l, l + w - 1)));
        let c = &e.grid[y][l + w - 1];
        let n = nm.name(&c.sty);
        last.push(jstr(match (c.chars.first(), n.as_str()) {
            (Some('#'), "th") => "th",
            (Some('.'), "tr") => "tr",
            _ => "",
        }));
    }
    let _ = last_only;
    format!(
        "\"full\":{},\"narrow\":{},\"last\":[{}],\"bad\":{},\"out\":{}",
        ids(&full),
        ids(&narrow),
        last.join(","),
        o.bad,
        o.out + e.clears
    )
}

#[derive(Clone, Debug)]
enum Op {
    M(&'static str),
    N(&'static str, i64),
    Key(&'static str, &'static str),
    Resize(u16, u16, u16, u16),
    Bar(bool),
}
const BIG: i64 = 1_000_000_000;
impl Op {
    fn json(&self) -> String {
        match self {
            Op::M(n) => format!("\"o\":\"{}\"", n),
            Op::N(n, v) => {
                let c = if *n == "try_scroll_pages" { (*v).clamp(-25_000_000, 25_000_000) } else { (*v).clamp(-BIG, BIG) };
                format!("\"o\":\"{}\",\"n\":{},\"raw\":\"{}\"", n, c, v)
            }
            Op::Key(k, m) => format!("\"o\":\"key\",\"k\":\"{}\",\"m\":\"{}\"", k, m),
            Op::Resize(x, y, w, h) => format!("\"o\":\"resize\",\"x\":{},\"y\":{},\"w\":{},\"h\":{}", x, y, w, h),
            Op::Bar(b) => format!("\"o\":\"show_scrollbar\",\"b\":{}", b),
        }
    }
}
fn key(k: &str, m: &str) -> KeyEvent {
    KeyEvent::new(
        match k {
            "up" => KeyCode::Up,
            "down" => KeyCode::Down,
            "pageup" => KeyCode::PageUp,
            "pagedown" => KeyCode::PageDown,
            "home" => KeyCode::Home,
            "end" => KeyCode::End,
            "left" => KeyCode::Left,
            "a" => KeyCode::Char('a'),
            _ => KeyCode::Enter,
        },
        match m {
            "ctrl" => KeyModifiers::CONTROL,
            "shift" => KeyModifiers::SHIFT,
            "alt" => KeyModifiers::ALT,
            _ => KeyModifiers::NONE,
        },
    )
}
fn rkey(r: &mut Rng) -> Op {
    let k = *r.pick(&["up", "down", "down", "pageup", "pagedown", "pagedown", "home", "end", "left", "a", "enter"]);
    let m = if r.chance(15) { *r.pick(&["ctrl", "shift", "alt"]) } else { "" };
    Op::Key(k, m)
}
fn rlines(r: &mut Rng) -> i64 {
    *r.pick(&[0, 1, 1, 2, 3, 5, 9, -1, -1, -2, -3, -6, 100, -100, i32::MAX as i64, i32::MIN as i64])
}
/// with margins, a wider area is needed for the marks and a char
fn rarea(r: &mut Rng, kind: usize) -> (u16, u16, u16, u16) {
    let min = if kind < 3 { 8 } else { 16 };
    if r.chance(3) {
        // a big one, or far from the top
        let w = if r.chance(30) { r.range(250, 300) } else { r.range(min, 120) };
        let h = r.range(1, 70);
        return (r.below(300) as u16, r.below(300) as u16, w as u16, h as u16);
    }
    let h = if r.chance(25) { r.range(1, 3) } else { r.range(1, 12) };
    (r.below(6) as u16, r.below(6) as u16, r.range(min, 34) as u16, h as u16)
}
fn names(skin: &MadSkin) -> Names {
    let mut nm = Names::default();
    nm.add("th", &format!("{}", skin.scrollbar.thumb));
    nm.add("tr", &format!("{}", skin.scrollbar.track));
    nm
}

fn ret(r: Option<bool>) -> &'static str {
    match r {
        Some(true) => "true",
        Some(false) => "false",
        None => "",
    }
}

fn text_view(r: &mut Rng, render: bool, out: &mut Out) {
    let kind = r.below(6);
    let skin = mdgen::skin(r, kind);
    let nm = names(&skin);
    let o = MdOpts { lines: if r.chance(2) { 300 } else { *r.pick(&[1, 4, 12, 30]) }, max_depth: 2, ..MdOpts::default() };
    let huge = !render && r.below(400) == 0;
    let md = if huge {
        // more lines than what fits in 15 or 16 bits
        "x\n".repeat(r.range(30_000, 80_000))
    } else {
        mdgen::text(r, &o)
    };
    let (x, y, w, h) = rarea(r, kind);
    let area = Area::new(x, y, w, h);
    let text = skin.area_text(&md, &area);
    let mut it = Intern::default();
    let tb = if huge { Tables::not_drawn(&text) } else { Tables::new(&mut it, &skin, &text, w as usize) };
    let mut s = format!(
        "{{\"view\":\"text\",\"md\":{},\"x\":{},\"y\":{},\"w\":{},\"h\":{},{},\"ev\":[",
        jstr(if huge { "many lines" } else { &md }),
        x,
        y,
        w,
        h,
        tb.json()
    );
    let mut view = TextView::from(&area, &text);
    let len = r.range(3, if render { 10 } else { 40 });
    let mut nev = 0;
    for _ in 0..len {
        let op = match r.below(12) {
            0..=3 if huge && r.chance(50) => {
                let n = *r.pick(&[20_000, 32_768, 40_000, 65_535, 65_536, 66_000]);
                match r.below(3) {
                    0 => Op::N("set_scroll", n),
                    1 => Op::N("try_scroll_lines", if r.chance(50) { n } else { -n }),
                    _ => Op::N("try_scroll_pages", if r.chance(50) { n * 64 } else { -n * 64 }),
                }
            }
            0 => Op::N("set_scroll", *r.pick(&[0, 1, 2, 3, 5, 8, 13, 21, 1000, i64::MAX])),
            1..=3 => Op::N("try_scroll_lines", rlines(r)),
            4..=5 => {
                let n = *r.pick(&[0, 1, 2, 3, 4, 4, 6, 8, -1, -2, -3, -4, -4, -6, -9, BIG, -BIG]) * 64;
                Op::N(
                    "try_scroll_pages",
                    match r.below(8) {
                        0 => i64::MAX,
                        1..=3 => n + *r.pick(&[-1, 1, 2, -3, 17, -30]),
                        _ => n,
                    },
                )
            }
            6 => Op::M(*r.pick(&["line_up", "line_down", "page_up", "page_down"])),
            7 => Op::M(*r.pick(&["line_down", "page_down"])),
            8 => Op::Bar(r.chance(60)),
            _ => rkey(r),
        };
        if nev > 0 {
            s.push(',');
        }
        nev += 1;
        let j = op.json();
        let it = &mut it;
        let view = &mut view;
        let res = guard(&j, || {
            let mut num: i64 = -1;
            let rr = match &op {
                Op::M("line_up") => Some(view.line_up()),
                Op::M("line_down") => Some(view.line_down()),
                Op::M("page_up") => Some(view.page_up()),
                Op::M(_) => Some(view.page_down()),
                Op::N("set_scroll", v) => {
                    num = view.set_scroll(*v as usize) as i64;
                    None
                }
                Op::N("try_scroll_lines", v) => {
                    view.try_scroll_lines(*v as i32);
                    None
                }
                Op::N(_, v) => {
                    if *v == i64::MAX {
                        view.try_scroll_pages(1e300);
                    } else {
                        view.try_scroll_pages(*v as f64 / 256.0);
                    }
                    None
                }
                Op::Key(k, m) => Some(view.apply_key_event(key(k, m))),
                Op::Bar(b) => {
                    view.show_scrollbar = *b;
                    None
                }
                Op::Resize(..) => unreachable!(),
            };
            let mut o = format!(
                "\"r\":\"{}\",\"num\":{},\"sc\":{},\"ch\":{},\"bar\":{}",
                ret(rr),
                num,
                view.scroll,
                view.content_height(),
                view.scrollbar().map_or("[]".to_string(), |(a, b)| format!("[{},{}]", a, b))
            );
            if render {
                let mut buf = Vec::new();
                view.write_on(&mut buf).unwrap();
                let txt = String::from_utf8(buf).unwrap();
                o.push(',');
                o.push_str(&drawn(it, &area, &txt, &nm, false));
            }
            o
        });
        match res {
            Ok(o) => s.push_str(&format!("{{{},\"p\":false,{}}}", j, o)),
            Err(m) => {
                s.push_str(&format!("{{{},\"p\":true,\"msg\":{}}}", j, jstr(&m)));
                break;
            }
        }
    }
    if r.chance(20) {
        if nev > 0 {
            s.push(',');
        }
        nev += 1;
        s.push_str(&tiny(r, &skin, &md));
    }
    s.push_str("]}");
    out.line(&s, nev);
}

fn mad_view(r: &mut Rng, render: bool, out: &mut Out) {
    let kind = r.below(6);
    let skin = mdgen::skin(r, kind);
    let nm = names(&skin);
    let o = MdOpts { lines: if r.chance(2) { 300 } else { *r.pick(&[1, 4, 12, 30]) }, max_depth: 2, ..MdOpts::default() };
    let huge = !render && r.below(600) == 0;
    let md = if huge { "x\n".repeat(r.range(30_000, 80_000)) } else { mdgen::text(r, &o) };
    let (x, y, w, h) = rarea(r, kind);
    let mut area = Area::new(x, y, w, h);
    let mut it = Intern::default();
    let text = skin.area_text(&md, &area);
    let tb = if huge { Tables::not_drawn(&text) } else { Tables::new(&mut it, &skin, &text, w as usize) };
    let mut s = format!(
        "{{\"view\":\"mad\",\"md\":{},\"x\":{},\"y\":{},\"w\":{},\"h\":{},{},\"ev\":[",
        jstr(if huge { "many lines" } else { &md }),
        x,
        y,
        w,
        h,
        tb.json()
    );
    let mut view = MadView::from(md.clone(), area.clone(), skin.clone());
    let len = r.range(3, if render { 10 } else { 30 });
    let mut nev = 0;
    for _ in 0..len {
        let op = match r.below(12) {
            1..=5 if huge && r.chance(50) => {
                let n = *r.pick(&[20_000, 32_768, 40_000, 65_536, 66_000]) * if r.chance(50) { 1 } else { -1 };
                if r.chance(50) {
                    Op::N("try_scroll_lines", n)
                } else {
                    Op::N("try_scroll_pages", 256 * (n / 3))
                }
            }
            1..=3 => Op::N("try_scroll_lines", rlines(r)),
            4..=5 => Op::N("try_scroll_pages", 256 * *r.pick(&[0, 1, 1, 2, -1, -1, -2, 10, 1_000_000, -1_000_000, i32::MAX as i64])),
            6..=7 => {
                let (mut x, mut y, mut w, mut h) = rarea(r, kind);
                match r.below(4) {
                    0 => w = area.width,
                    1 => {
                        w = area.width;
                        x = area.left;
                        y = area.top;
                    }
                    2 => h = area.height,
                    _ => {}
                }
                if r.chance(5) {
                    (x, y, w, h) = (area.left, area.top, area.width, area.height);
                }
                Op::Resize(x, y, w, h)
            }
            8 if render => Op::M("write_in_area"),
            _ => rkey(r),
        };
        if nev > 0 {
            s.push(',');
        }
        nev += 1;
        let mut j = op.json();
        if let Op::Resize(x, y, w, h) = &op {
            area = Area::new(*x, *y, *w, *h);
            let text = skin.area_text(&md, &area);
            let tb = if huge { Tables::not_drawn(&text) } else { Tables::new(&mut it, &skin, &text, *w as usize) };
            j.push_str(&format!(",\"n\":{},\"tb\":{{{}}}", tb.n, tb.json()));
        }
        let it = &mut it;
        let view = &mut view;
        let area = &area;
        let res = guard(&j, || {
            let mut direct = false;
            let rr = match &op {
                Op::M(_) => {
                    direct = true;
                    None
                }
                Op::N("try_scroll_lines", v) => {
                    view.try_scroll_lines(*v as i32);
                    None
                }
                Op::N(_, v) => {
                    view.try_scroll_pages((*v / 256) as i32);
                    None
                }
                Op::Key(k, m) => Some(view.apply_key_event(key(k, m))),
                Op::Resize(..) => {
                    view.resize(area);
                    None
                }
                Op::Bar(_) => unreachable!(),
            };
            let mut o = format!("\"r\":\"{}\",\"num\":-1,\"sc\":{},\"ch\":-1,\"bar\":[-1]", ret(rr), view.scroll);
            if render {
                let mut buf = Vec::new();
                if direct {
                    skin.write_in_area_on(&mut buf, &md, area).unwrap();
                } else {
                    view.write_on(&mut buf).unwrap();
                }
                let txt = String::from_utf8(buf).unwrap();
                o.push(',');
                o.push_str(&drawn(it, area, &txt, &nm, false));
            }
            o
        });
        match res {
            Ok(o) => s.push_str(&format!("{{{},\"p\":false,{}}}", j, o)),
            Err(m) => {
                s.push_str(&format!("{{{},\"p\":true,\"msg\":{}}}", j, jstr(&m)));
                break;
            }
        }
    }
    if r.chance(20) {
        if nev > 0 {
            s.push(',');
        }
        nev += 1;
        s.push_str(&tiny(r, &skin, &md));
    }
    s.push_str("]}");
    out.line(&s, nev);
}

/// the views in areas too small for the text (maybe without any cell):
/// nothing panics and the scroll stays in its bounds
fn tiny(r: &mut Rng, skin: &MadSkin, md: &str) -> String {
    let (x, y, w, h) = (r.below(3) as u16, r.below(3) as u16, r.range(0, 3) as u16, r.range(0, 2) as u16);
    let j = format!("\"o\":\"tiny\",\"x\":{},\"y\":{},\"w\":{},\"h\":{}", x, y, w, h);
    let area = Area::new(x, y, w, h);
    let (n1, n2) = (rlines(r) as i32, rlines(r) as i32);
    let res = guard(&j, || {
        let text = skin.area_text(md, &area);
        let mut view = TextView::from(&area, &text);
        let mut bound = true;
        let mut step = |view: &TextView| {
            bound &= view.scroll <= view.content_height().saturating_sub(h as usize);
            let mut buf = Vec::new();
            view.write_on(&mut buf).unwrap();
        };
        step(&view);
        view.try_scroll_lines(n1);
        step(&view);
        view.page_down();
        step(&view);
        view.line_up();
        step(&view);
        view.show_scrollbar = false;
        step(&view);
        let mut mad = MadView::from(md.to_string(), Area::new(0, 0, 20, 5), skin.clone());
        mad.try_scroll_lines(n2);
        mad.resize(&area);
        bound &= mad.scroll <= text.lines.len().saturating_sub(h as usize);
        mad.try_scroll_pages(n1);
        bound &= mad.scroll <= text.lines.len().saturating_sub(h as usize);
        let mut buf = Vec::new();
        mad.write_on(&mut buf).unwrap();
        skin.write_in_area_on(&mut buf, md, &area).unwrap();
        bound
    });
    match res {
        Ok(b) => format!("{{{},\"p\":false,\"bound\":{}}}", j, b),
        Err(m) => format!("{{{},\"p\":true,\"msg\":{}}}", j, jstr(&m)),
    }
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, prop);
    while out.events < budget {
        if r.chance(60) {
            text_view(&mut r, prop == "C12", out);
        } else {
            mad_view(&mut r, prop == "C12", out);
        }
    }
}

/// scrollbars: for a content and a track, the thumbs for many scrolls in order
pub fn run_sb(seed: u64, prop: &str, thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, prop);
    let emit = |c: usize, h: u16, top: u16, scrolls: &[usize], how: usize, out: &mut Out| {
        let mut s = format!("{{\"c\":{},\"h\":{},\"top\":{},\"how\":{},\"ev\":[", c, h, top, how);
        for (k, &sc) in scrolls.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            let res = guard("scrollbar", || match how {
                0 => compute_scrollbar::<usize, u16, u16>(sc, c, h, top).map(|(a, b)| (a as usize, b as usize)),
                1 => Area::new(3, top, 10, h).scrollbar(sc, c).map(|(a, b)| (a as usize, b as usize)),
                2 => Area::new(0, top, 10, h).scrollbar(sc as u16, c as u16).map(|(a, b)| (a as usize, b as usize)),
                _ => compute_scrollbar::<usize, usize, usize>(sc, c, h as usize, top as usize),
            });
            match res {
                Ok(b) => s.push_str(&format!(
                    "{{\"p\":false,\"sc\":{},\"t\":{}}}",
                    sc,
                    b.map_or("[]".to_string(), |(a, b)| format!("[{},{}]", a, b))
                )),
                Err(m) => s.push_str(&format!("{{\"p\":true,\"sc\":{},\"msg\":{}}}", sc, jstr(&m))),
            }
        }
        s.push_str("]}");
        out.line(&s, scrolls.len());
    };
    // all small cases
    let (mc, mh) = if thorough { (60, 26) } else { (34, 16) };
    for c in 0..=mc {
        for h in 1..=mh {
            let max = if c > h as usize { c - h as usize } else { 0 };
            let scrolls: Vec<usize> = (0..=max).collect();
            let how = (c + h as usize) % 4;
            emit(c, h, ((c * 7 + h as usize) % 23) as u16, &scrolls, how, out);
        }
    }
    // large ones
    while out.events < budget {
        let h = match r.below(4) {
            0 => r.range(1, 6),
            1 => r.range(1, 80),
            2 => r.range(1, 300),
            _ => r.range(1, 30000),
        } as u16;
        let how = r.below(4);
        let cmax = if how == 2 { 65535 } else { *r.pick(&[100, 1000, 65535, 65536, 60_000_000, 2_000_000_000]) };
        let c = if r.chance(30) { (h as usize + r.range(0, 5)).min(cmax) } else { r.range(0, cmax) };
        let top = if r.chance(50) { r.below(100) } else { r.below(65535 - h as usize) } as u16;
        let max = c.saturating_sub(h as usize);
        let mut scrolls = vec![0, max];
        for _ in 0..12 {
            scrolls.push(r.below(max + 1));
        }
        for d in 1..=3 {
            scrolls.push(d.min(max));
            scrolls.push(max.saturating_sub(d));
        }
        scrolls.sort();
        scrolls.dedup();
        emit(c, h, top, &scrolls, how, out);
    }
}
