//! Rendering driver (C16, C19): what the formatted texts look like, and the
//! structure of their tables.
use crate::emu::{linear, style_of, Sty};
use crate::mdgen::{self, MdOpts};
use crate::out::*;
use crate::rng::Rng;
use crate::wr::{compounds_json, kind, mode};
use termimad::crossterm::style::{Attribute, Color};
use termimad::minimad::{parse_text, Alignment, Composite, CompositeStyle, Compound, Line, Options, Text};
use termimad::*;

pub fn al(a: Alignment) -> &'static str {
    match a {
        Alignment::Left => "l",
        Alignment::Center => "c",
        Alignment::Right => "r",
        Alignment::Unspecified => "u",
    }
}

/// color as displayed: same projection as the emulator
fn color(c: Option<Color>) -> String {
    match c {
        None => String::new(),
        Some(Color::AnsiValue(n)) => format!("a{}", n),
        Some(Color::Rgb { r, g, b }) => format!("r{}.{}.{}", r, g, b),
        Some(c) => {
            let s: Sty = style_of(&format!("{}x", termimad::crossterm::style::SetForegroundColor(c)));
            s.fg
        }
    }
}
/// what a style says, from its fields
pub fn cs_json(s: &CompoundStyle) -> String {
    let at: Vec<String> = Attribute::iterator()
        .filter(|a| *a != Attribute::Reset && s.has_attr(*a))
        .map(|a| format!("\"{}\"", a.sgr()))
        .collect();
    format!("{{\"fg\":\"{}\",\"bg\":\"{}\",\"at\":[{}]}}", color(s.get_fg()), color(s.get_bg()), at.join(","))
}
pub fn ls_json(s: &LineStyle) -> String {
    format!(
        "{{\"cs\":{},\"al\":\"{}\",\"ml\":{},\"mr\":{}}}",
        cs_json(&s.compound_style),
        al(s.align),
        s.left_margin,
        s.right_margin
    )
}
fn sc_json(c: &StyledChar) -> String {
    format!("{{\"c\":{},\"cs\":{}}}", c.get_char() as u32, cs_json(c.compound_style()))
}
pub fn skin_json(sk: &MadSkin) -> String {
    let h: Vec<String> = sk.headers.iter().map(ls_json).collect();
    let t = sk.table_border_chars;
    let mut sp: Vec<String> = sk
        .special_chars
        .iter()
        .map(|(c, s)| {
            format!("{{\"c\":{},\"f\":{},\"by\":{}}}", cps(c.src), crate::wr::flags(c), sc_json(s))
        })
        .collect();
    sp.sort();
    format!(
        "{{\"para\":{},\"code\":{},\"table\":{},\"h\":[{}],\"bold\":{},\"italic\":{},\"strike\":{},\"icode\":{},\"ell\":{},\"bullet\":{},\"quote\":{},\"hr\":{},\"tbc\":{{\"v\":{},\"h\":{},\"tl\":{},\"tr\":{},\"bl\":{},\"br\":{},\"lj\":{},\"rj\":{},\"tj\":{},\"bj\":{},\"x\":{}}},\"special\":[{}],\"mode\":\"{}\"}}",
        ls_json(&sk.paragraph),
        ls_json(&sk.code_block),
        ls_json(&sk.table),
        h.join(","),
        cs_json(&sk.bold),
        cs_json(&sk.italic),
        cs_json(&sk.strikeout),
        cs_json(&sk.inline_code),
        cs_json(&sk.ellipsis),
        sc_json(&sk.bullet),
        sc_json(&sk.quote_mark),
        sc_json(&sk.horizontal_rule),
        t.vertical as u32,
        t.horizontal as u32,
        t.top_left_corner as u32,
        t.top_right_corner as u32,
        t.bottom_left_corner as u32,
        t.bottom_right_corner as u32,
        t.left_junction as u32,
        t.right_junction as u32,
        t.top_junction as u32,
        t.bottom_junction as u32,
        t.cross as u32,
        sp.join(","),
        mode(sk)
    )
}

/// Styles observed in a trace
#[derive(Default)]
pub struct Styles {
    v: Vec<Sty>,
}
impl Styles {
    pub fn idx(&mut self, s: &Sty) -> usize {
        if let Some(i) = self.v.iter().position(|t| t == s) {
            return i + 1;
        }
        self.v.push(s.clone());
        self.v.len()
    }
    pub fn json(&self) -> String {
        let v: Vec<String> = self
            .v
            .iter()
            .map(|s| {
                let at: Vec<String> = s.attrs.iter().map(|a| format!("\"{}\"", a)).collect();
                format!("{{\"fg\":\"{}\",\"bg\":\"{}\",\"at\":[{}]}}", s.fg, s.bg, at.join(","))
            })
            .collect();
        format!("[{}]", v.join(","))
    }
}

/// `"c":..,"x":..,"odd":..` of a displayed line
pub fn shown(s: &str, st: &mut Styles) -> String {
    let (v, odd) = linear(s);
    let c: Vec<String> = v.iter().map(|x| (x.0 as u32).to_string()).collect();
    let x: Vec<String> = v.iter().map(|x| st.idx(&x.1).to_string()).collect();
    format!("\"c\":[{}],\"x\":[{}],\"odd\":{}", c.join(","), x.join(","), odd)
}

fn comp_json(style: CompositeStyle, cs: &[Compound]) -> String {
    let (k, d) = kind(style.into());
    format!("{{\"kind\":\"{}\",\"d\":{},\"s\":{}}}", k, d, compounds_json(cs))
}
fn src_line(l: &Line) -> String {
    match l {
        Line::Normal(c) => comp_json(c.style, &c.compounds),
        Line::TableRow(r) => {
            let v: Vec<String> = r.cells.iter().map(|c| comp_json(c.style, &c.compounds)).collect();
            format!("{{\"kind\":\"row\",\"cells\":[{}]}}", v.join(","))
        }
        Line::TableRule(r) => {
            let v: Vec<String> = r.cells.iter().map(|a| format!("\"{}\"", al(*a))).collect();
            format!("{{\"kind\":\"rule\",\"aligns\":[{}]}}", v.join(","))
        }
        _ => "{\"kind\":\"hr\"}".into(),
    }
}
fn fc_json(fc: &FmtComposite) -> String {
    let (k, d) = kind(fc.kind);
    format!("{{\"kind\":\"{}\",\"d\":{},\"s\":{}}}", k, d, compounds_json(&fc.compounds))
}
pub fn line_json(l: &FmtLine) -> String {
    match l {
        FmtLine::Normal(fc) => {
            let (k, d) = kind(fc.kind);
            format!("\"t\":\"n\",\"kind\":\"{}\",\"d\":{},\"s\":{}", k, d, compounds_json(&fc.compounds))
        }
        FmtLine::TableRow(r) => {
            let v: Vec<String> = r.cells.iter().map(fc_json).collect();
            let w: Vec<String> =
                r.cells.iter().map(|c| c.spacing.map_or(c.visible_length, |s| s.width).to_string()).collect();
            let a: Vec<String> =
                r.cells.iter().map(|c| format!("\"{}\"", c.spacing.map_or("-", |s| al(s.align)))).collect();
            format!("\"t\":\"row\",\"cells\":[{}],\"widths\":[{}],\"aligns\":[{}]", v.join(","), w.join(","), a.join(","))
        }
        FmtLine::TableRule(r) => {
            let w: Vec<String> = r.widths.iter().map(|w| w.to_string()).collect();
            let a: Vec<String> = r.aligns.iter().map(|a| format!("\"{}\"", al(*a))).collect();
            let p = match r.position {
                RelativePosition::Top => "top",
                RelativePosition::Bottom => "bottom",
                RelativePosition::Other => "other",
            };
            format!("\"t\":\"rule\",\"pos\":\"{}\",\"widths\":[{}],\"aligns\":[{}]", p, w.join(","), a.join(","))
        }
        FmtLine::HorizontalRule => "\"t\":\"hr\"".into(),
    }
}

/// source units: lines alone, tables together
fn units(src: &Text) -> Vec<(usize, usize)> {
    let ll = &src.lines;
    let is_tbl = |l: &Line| matches!(l, Line::TableRow(_) | Line::TableRule(_));
    let mut v = vec![];
    let mut i = 0;
    while i < ll.len() {
        let mut j = i + 1;
        if is_tbl(&ll[i]) {
            while j < ll.len() && is_tbl(&ll[j]) {
                j += 1;
            }
        }
        v.push((i, j));
        i = j;
    }
    v
}

fn trace_head(sk: &MadSkin, w: i64, dw: i64, right: bool, inline: bool, md: &str, src: &str, st: &Styles) -> String {
    format!(
        "\"sk\":{},\"mode\":\"{}\",\"w\":{},\"dw\":{},\"right\":{},\"inline\":{},\"md\":{},\"src\":[{}],\"sty\":{}",
        skin_json(sk),
        mode(sk),
        w,
        dw,
        right,
        inline,
        jstr(md),
        src,
        st.json()
    )
}

fn special(r: &mut Rng, sk: &mut MadSkin) {
    if r.chance(15) {
        sk.special_chars.insert(Compound::raw_str("x").bold(), StyledChar::from_fg_char(Color::AnsiValue(99), 'Y'));
        sk.special_chars.insert(Compound::raw_str("a").italic(), StyledChar::from_fg_char(Color::AnsiValue(98), '日'));
        sk.special_chars.insert(Compound::raw_str("x"), StyledChar::from_fg_char(Color::AnsiValue(97), 'z'));
    }
    match r.below(6) {
        0 => sk.table_border_chars = ROUNDED_TABLE_BORDER_CHARS,
        1 => sk.table_border_chars = ASCII_TABLE_BORDER_CHARS,
        _ => {}
    }
}

/// C19
fn texts(r: &mut Rng, out: &mut Out) {
    let k = r.below(6);
    let mut sk = mdgen::skin(r, k);
    special(r, &mut sk);
    let o = MdOpts { lines: if r.chance(1) { 60 } else { 8 }, words: if r.chance(1) { 90 } else { *r.pick(&[2, 5, 12]) }, cell_marks: r.chance(30), ..MdOpts::default() };
    let mut md = mdgen::text(r, &o);
    if r.chance(20) {
        md.push_str(*r.pick(&["\n**x**", "\n*a*", "\nx", "\n**…**", "\n…", "\n> **x**y*a*"]));
    }
    let src = parse_text(&md, Options::default());
    let width = match r.below(8) {
        0 => None,
        1 => Some(r.range(1, 6)),
        2 if r.chance(10) => Some(r.range(120, 320)),
        2 => Some(r.range(60, 120)),
        _ => Some(r.range(5, 60)),
    };
    let un = units(&src);
    let usrc: Vec<String> = un
        .iter()
        .map(|&(i, j)| if j > i + 1 || matches!(src.lines[i], Line::TableRow(_) | Line::TableRule(_)) { "{\"kind\":\"table\"}".into() } else { src_line(&src.lines[i]) })
        .collect();
    let right = r.chance(50);
    // the text may be rendered at another width than the one it was made for
    let dw = if r.chance(20) { Some(r.range(1, 100)) } else { width };
    let mut st = Styles::default();
    let res = guard(&format!("render {:?} {:?} {:?}", width, dw, md), || {
        let mut t = FmtText::from(&sk, &md, width);
        if let Some(dw) = dw {
            t.set_rendering_width(dw);
        }
        let shown_lines: Vec<String> = if right {
            t.lines.iter().map(|l| format!("{}", DisplayableLine::new(&sk, l, dw))).collect()
        } else {
            let s = format!("{}", t);
            s.split_terminator('\n').map(|s| s.to_string()).collect()
        };
        let mut us = vec![];
        for (k, &(i, j)) in un.iter().enumerate() {
            let part = Text { lines: src.lines[i..j].to_vec() };
            let n = FmtText::from_text(&sk, part, width).lines.len();
            us.extend(std::iter::repeat(k + 1).take(n));
        }
        let mut evs: Vec<String> = vec![];
        if t.lines.len() != shown_lines.len() || us.len() != t.lines.len() {
            evs.push("{\"p\":false,\"t\":\"count\"}".into());
        } else {
            for (k, l) in t.lines.iter().enumerate() {
                evs.push(format!("{{\"p\":false,\"u\":{},{},{}}}", us[k], line_json(l), shown(&shown_lines[k], &mut st)));
            }
            evs.push(format!("{{\"p\":false,\"t\":\"cw\",\"cw\":{}}}", t.content_width()));
        }
        evs
    });
    let evs = res.unwrap_or_else(|m| vec![format!("{{\"p\":true,\"msg\":{}}}", jstr(&m))]);
    let f = |x: Option<usize>| x.map_or(-1, |x| x as i64);
    let s = format!(
        "{{{},\"ev\":[{}]}}",
        trace_head(&sk, f(width), f(dw), right, false, &md, &usrc.join(","), &st),
        evs.join(",")
    );
    out.line(&s, evs.len());
}

/// C19: inline snippets
fn inlines(r: &mut Rng, out: &mut Out) {
    let k = r.below(6);
    let mut sk = mdgen::skin(r, k);
    special(r, &mut sk);
    let o = MdOpts::default();
    let mut st = Styles::default();
    let mut evs = vec![];
    for _ in 0..10 {
        let n = r.below(8);
        let md = mdgen::inline(r, &o, n);
        let how = r.below(4);
        let res = guard(&format!("inline {} {:?}", how, md), || {
            let c = Composite::from_inline(&md);
            let mut b: Vec<u8> = vec![];
            match how {
                0 => b.extend(format!("{}", sk.inline(&md)).into_bytes()),
                1 => sk.write_composite(&mut b, c.clone()).unwrap(),
                2 => sk.write_inline_on(&mut b, &md).unwrap(),
                _ => {
                    let fi = FmtInline { skin: &sk, composite: FmtComposite::from(c.clone(), &sk) };
                    b.extend(fi.to_string().into_bytes());
                }
            }
            format!(
                "{{\"p\":false,\"u\":0,\"t\":\"n\",\"kind\":\"p\",\"d\":0,\"s\":{},{}}}",
                compounds_json(&c.compounds),
                shown(&String::from_utf8(b).unwrap(), &mut st)
            )
        });
        evs.push(res.unwrap_or_else(|m| format!("{{\"p\":true,\"md\":{},\"msg\":{}}}", jstr(&md), jstr(&m))));
    }
    let s = format!("{{{},\"ev\":[{}]}}", trace_head(&sk, -1, -1, false, true, "", "", &st), evs.join(","));
    out.line(&s, evs.len());
}

/// C16: the public fitter of the columns
fn fitter(r: &mut Rng, out: &mut Out) {
    let mut evs: Vec<String> = vec![];
    for _ in 0..30 {
        let n = r.below(7);
        let w = match r.below(4) {
            0 => (4 * n + 1 + r.below(3)).saturating_sub(1),
            1 => r.below(12),
            2 if r.chance(10) => r.range(4 * n, 4 * n + 2000),
            _ => r.range(4 * n, 4 * n + 60),
        };
        let top = *r.pick(&[4, 9, 30, 100, 100, 700]);
        let seen: Vec<(usize, usize)> = (0..r.below(4 * n + 3)).map(|_| (r.below(n + 1), r.below(top))).collect();
        let h: Vec<String> = seen.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect();
        let head = format!("\"t\":\"fit\",\"n\":{n},\"w\":{w},\"seen\":[{}]", h.join(","));
        let res = guard(&head, || match TblFit::new(n, w) {
            Err(_) => "\"err\":true,\"reduced\":false,\"widths\":[]".to_string(),
            Ok(mut f) => {
                for &(c, x) in &seen {
                    f.see_cell(c, x);
                }
                let a = f.fit();
                format!("\"err\":false,\"reduced\":{},\"widths\":{:?}", a.reduced, a.col_widths)
            }
        });
        evs.push(match res {
            Ok(a) => format!("{{\"p\":false,{head},{a}}}"),
            Err(m) => format!("{{\"p\":true,{head},\"msg\":{}}}", jstr(&m)),
        });
    }
    let s = format!("{{{},\"ev\":[{}]}}", trace_head(&MadSkin::default(), -1, -1, false, false, "", "", &Styles::default()), evs.join(","));
    out.line(&s, evs.len());
}

/// C16
fn tables(r: &mut Rng, out: &mut Out) {
    let k = r.below(6);
    let mut sk = mdgen::skin(r, k);
    special(r, &mut sk);
    sk.special_chars.clear();
    let o = MdOpts { cell_marks: r.chance(30), wide: r.chance(70), long_words: r.chance(30), cell_words: if r.chance(1) { 90 } else { 0 }, ..MdOpts::default() };
    let mut md = String::new();
    let n = if o.cell_words > 0 { 1 } else { r.range(1, 3) };
    for k in 0..n {
        if k > 0 || r.chance(20) {
            md.push_str(*r.pick(&["\n", "para\n", "---\n", "* item with several words\n", "    code\n"]));
        }
        md.push_str(&mdgen::table(r, &o).join("\n"));
        md.push('\n');
    }
    if r.chance(30) {
        md.push_str("end");
    }
    let width = match r.below(10) {
        0 => None,
        5..=9 if o.cell_words > 0 => Some(r.range(250, 900)),
        1 => Some(r.range(1, 8)),
        2 if r.chance(10) => Some(r.range(150, 400)),
        2 => Some(r.range(60, 150)),
        3 | 4 => {
            // around the natural width
            let cw = guard("natural width", || FmtText::from(&sk, &md, None).content_width()).unwrap_or(20);
            Some((cw + r.below(4)).saturating_sub(2).max(5))
        }
        5 => Some(4 * r.range(1, 6) + r.below(3)),
        _ => Some(r.range(5, 50)),
    };
    let src = parse_text(&md, Options::default());
    let mut st = Styles::default();
    let mut evs: Vec<String> = vec![];
    let res = guard(&format!("tables {:?} {:?}", width, md), || {
        let t = FmtText::from(&sk, &md, width);
        let s = format!("{}", t);
        let sh: Vec<&str> = s.split_terminator('\n').collect();
        // runs of table lines
        let mut runs: Vec<Vec<String>> = vec![];
        let mut inside = false;
        for (k, l) in t.lines.iter().enumerate() {
            let is = matches!(l, FmtLine::TableRow(_) | FmtLine::TableRule(_));
            if is {
                if !inside {
                    runs.push(vec![]);
                }
                let (cs, _) = linear(sh.get(k).unwrap_or(&""));
                let s: String = cs.iter().map(|x| x.0).collect();
                runs.last_mut().unwrap().push(format!("{{{},\"c\":{},\"vl\":{}}}", line_json(l), cps(&s), l.visible_length()));
            }
            inside = is;
        }
        runs
    });
    match res {
        Ok(runs) => {
            let un: Vec<(usize, usize)> = units(&src)
                .into_iter()
                .filter(|u| matches!(src.lines[u.0], Line::TableRow(_) | Line::TableRule(_)))
                .collect();
            evs.push(format!("{{\"p\":false,\"t\":\"tables\",\"n\":{},\"of\":{}}}", runs.len(), un.len()));
            for (u, run) in un.iter().zip(runs.iter()) {
                let v: Vec<String> = src.lines[u.0..u.1].iter().map(src_line).collect();
                evs.push(format!("{{\"p\":false,\"t\":\"table\",\"src\":[{}],\"out\":[{}]}}", v.join(","), run.join(",")));
            }
        }
        Err(m) => evs.push(format!("{{\"p\":true,\"msg\":{}}}", jstr(&m))),
    }
    let f = |x: Option<usize>| x.map_or(-1, |x| x as i64);
    st.idx(&Sty::default());
    let s = format!("{{{},\"ev\":[{}]}}", trace_head(&sk, f(width), f(width), false, false, &md, "", &st), evs.join(","));
    out.line(&s, evs.len());
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, prop);
    let mut k = 0;
    while out.events < budget {
        k += 1;
        if prop == "C16" {
            if k % 40 == 0 {
                fitter(&mut r, out);
            }
            tables(&mut r, out);
        } else if k % 8 == 0 {
            inlines(&mut r, out);
        } else {
            texts(&mut r, out);
        }
    }
}
