//! Wrapping driver (C14, C15): what `hard_wrap_composite` and formatted texts
//! do with lines of any kind.
use crate::emu::Emu;
use crate::mdgen::{self, MdOpts};
use crate::out::*;
use crate::rng::Rng;
use termimad::minimad::{parse_text, Composite, Compound, Line, Options, Text};
use termimad::*;

pub fn flags(c: &Compound) -> usize {
    c.bold as usize + 2 * c.italic as usize + 4 * c.strikeout as usize + 8 * c.code as usize
}
pub fn compounds_json(cs: &[Compound]) -> String {
    let v: Vec<String> = cs.iter().map(|c| format!("{{\"c\":{},\"f\":{}}}", cps(c.src), flags(c))).collect();
    format!("[{}]", v.join(","))
}
pub fn kind(k: CompositeKind) -> (&'static str, usize) {
    match k {
        CompositeKind::Paragraph => ("p", 0),
        CompositeKind::Header(l) => ("h", l as usize),
        CompositeKind::ListItem(d) => ("l", d as usize),
        CompositeKind::ListItemFollowUp(d) => ("f", d as usize),
        CompositeKind::Code => ("c", 0),
        CompositeKind::Quote => ("q", 0),
    }
}
pub fn mode(skin: &MadSkin) -> &'static str {
    match skin.list_items_indentation_mode {
        ListItemsIndentationMode::Block => "block",
        _ => "first",
    }
}
/// width of a line written with its completions
fn rendered_width(skin: &MadSkin, l: &FmtLine, w: usize) -> usize {
    let mut e = Emu::new(2000, 1);
    e.feed(&format!("{}", DisplayableLine::new(skin, l, Some(w))));
    e.x
}
fn fc_json(fc: &FmtComposite, rw: usize) -> String {
    let (k, d) = kind(fc.kind);
    format!(
        "{{\"kind\":\"{}\",\"d\":{},\"s\":{},\"vl\":{},\"sp\":{},\"rw\":{}}}",
        k,
        d,
        compounds_json(&fc.compounds),
        fc.visible_length,
        fc.spacing.map_or(-1, |s| s.width as i64),
        rw
    )
}
fn head(how: &str, fc: &FmtComposite, w: usize, ml: usize, mr: usize, spw: i64) -> String {
    let (k, d) = kind(fc.kind);
    format!(
        "\"how\":\"{}\",\"w\":{},\"ml\":{},\"mr\":{},\"kind\":\"{}\",\"d\":{},\"s\":{},\"spw\":{}",
        how,
        w,
        ml,
        mr,
        k,
        d,
        compounds_json(&fc.compounds),
        spw
    )
}

/// a line in a width too small for any wrapping: refused, unless it fits
fn narrow(skin: &MadSkin, fc: &FmtComposite, w: usize) -> String {
    let (k, d) = kind(fc.kind);
    let ls = skin.line_style(fc.kind);
    let h = format!("\"how\":\"narrow\",\"w\":{w},\"ml\":{},\"mr\":{},\"kind\":\"{k}\",\"d\":{d},\"s\":{}", ls.left_margin, ls.right_margin, compounds_json(&fc.compounds));
    let one = |r: Result<Vec<FmtLine>, InsufficientWidthError>| match r {
        Ok(v) => {
            let same = v.len() == 1 && matches!(&v[0], FmtLine::Normal(x) if compounds_json(&x.compounds) == compounds_json(&fc.compounds));
            if same { "same".to_string() } else { "other".to_string() }
        }
        Err(e) => format!("{}", e.available_width),
    };
    let res = guard(&h, || {
        let a = if fc.visible_length > w { wrap::hard_wrap_composite(fc, w, skin).map_or_else(|e| e.available_width.to_string(), |_| "other".into()) } else { "".into() };
        let b = one(wrap::hard_wrap_lines(vec![FmtLine::Normal(fc.clone())], w, skin));
        (a, b)
    });
    match res {
        Ok((a, b)) => format!("{{{h},\"p\":false,\"comp\":\"{a}\",\"lines\":\"{b}\"}}"),
        Err(m) => format!("{{{},\"p\":true,\"msg\":{}}}", h, jstr(&m)),
    }
}

/// one call of hard_wrap_composite, if the composite doesn't fit
fn hw(skin: &MadSkin, fc: &FmtComposite, w: usize) -> Option<String> {
    if fc.visible_length <= w {
        return None;
    }
    let h = head("hw", fc, w, 0, 0, fc.spacing.map_or(-1, |s| s.width as i64));
    let res = guard(&h, || {
        let lines = wrap::hard_wrap_composite(fc, w, skin).unwrap();
        let v: Vec<String> = lines.iter().map(|l| fc_json(l, 0)).collect();
        v.join(",")
    });
    Some(match res {
        Ok(l) => format!("{{{},\"p\":false,\"ll\":-1,\"lines\":[{}]}}", h, l),
        Err(m) => format!("{{{},\"p\":true,\"msg\":{}}}", h, jstr(&m)),
    })
}

fn small_compound<'s>(s: &'s str, f: usize) -> Compound<'s> {
    let mut c = Compound::raw_str(s);
    c.bold = f & 1 != 0;
    c.italic = f & 2 != 0;
    c.strikeout = f & 4 != 0;
    c.code = f & 8 != 0;
    c
}

fn emit(out: &mut Out, skin: &MadSkin, evs: &mut Vec<String>) {
    if evs.is_empty() {
        return;
    }
    let s = format!("{{\"mode\":\"{}\",\"ev\":[{}]}}", mode(skin), evs.join(","));
    out.line(&s, evs.len());
    evs.clear();
}

/// sources over a small alphabet, with any cut in compounds
fn dense(r: &mut Rng, out: &mut Out, n: usize, thorough: bool) {
    let skins = {
        let a = MadSkin::default();
        let mut b = MadSkin::default();
        b.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly;
        [a, b]
    };
    let alpha = [
        &['a', 'b', ' '][..],
        &['a', '日', ' '],
        &['a', '日', ' ', '\u{301}'],
        &['a', 'b', 'c', ' ', '日'],
    ];
    let maxlen = if thorough { 14 } else { 10 };
    let mut evs = vec![];
    for k in 0..n {
        let skin = &skins[k / 50 % 2];
        let al = alpha[r.below(4)];
        let len = r.range(3, maxlen);
        let cs: Vec<char> = (0..len).map(|_| *r.pick(al)).collect();
        let nc = r.range(1, 4);
        let mut cuts: Vec<usize> = (0..nc - 1).map(|_| r.below(len + 1)).collect();
        cuts.push(0);
        cuts.push(len);
        cuts.sort();
        cuts.dedup();
        let parts: Vec<String> = cuts.windows(2).map(|w| cs[w[0]..w[1]].iter().collect()).collect();
        let compounds: Vec<Compound> = parts
            .iter()
            .enumerate()
            .map(|(i, s)| small_compound(s, if r.chance(25) { 8 } else if r.chance(50) { i } else { 0 }))
            .collect();
        let deep = r.chance(2);
        let depth = if deep { r.range(4, 255) } else { r.below(4) } as u8;
        let kind = match r.below(8) {
            0..=2 => CompositeKind::Paragraph,
            3 => CompositeKind::ListItem(depth),
            4 => CompositeKind::ListItemFollowUp(depth),
            5 => CompositeKind::Quote,
            6 => CompositeKind::Header(r.range(1, 8) as u8),
            _ => CompositeKind::Code,
        };
        let mut fc = FmtComposite {
            kind,
            visible_length: skin.visible_composite_length(kind, &compounds),
            compounds,
            spacing: None,
        };
        if r.chance(10) {
            fc.spacing = Some(Spacing { width: r.range(1, 20), align: Alignment::Center });
        }
        let w = if deep { r.range(3, 12) + depth as usize } else { r.range(3, 9) };
        if let Some(e) = hw(skin, &fc, w) {
            evs.push(e);
        }
        if k % 50 == 49 || k + 1 == n {
            emit(out, skin, &mut evs);
        }
    }
}

/// composites of generated markdown lines, wrapped at any width
fn lines(r: &mut Rng, out: &mut Out) {
    let k = r.below(6);
    let skin = mdgen::skin(r, k);
    let o = MdOpts { lines: 6, words: if r.chance(1) { 120 } else { *r.pick(&[3, 10, 30]) }, tables: false, hr: false, ..MdOpts::default() };
    let md = mdgen::text(r, &o);
    let mut evs = vec![];
    for line in parse_text(&md, Options::default()).lines {
        if let Line::Normal(c) = line {
            let fc = FmtComposite::from(c, &skin);
            for _ in 0..3 {
                let w = match r.below(3) {
                    0 => r.range(3, 8),
                    1 => r.range(3, if fc.visible_length > 300 { 300 } else { 30 }),
                    _ => r.range(3, fc.visible_length.max(4)),
                };
                if let Some(e) = hw(&skin, &fc, w) {
                    evs.push(e);
                }
            }
            if r.chance(40) {
                evs.push(narrow(&skin, &fc, r.below(3)));
            }
        }
    }
    emit(out, &skin, &mut evs);
}

/// whole texts
fn texts(r: &mut Rng, out: &mut Out) {
    let k = r.below(6);
    let skin = mdgen::skin(r, k);
    let o = MdOpts { lines: 8, words: if r.chance(1) { 120 } else { *r.pick(&[3, 10, 25]) }, ..MdOpts::default() };
    let how = r.below(4);
    let o = if how == 3 { MdOpts { tables: false, ..o } } else { o };
    let md = mdgen::text(r, &o);
    let w = match r.below(3) {
        0 => r.range(3, 12),
        _ if r.chance(3) => r.range(60, 350),
        _ => r.range(5, 60),
    };
    let mut evs = vec![];
    let src = parse_text(&md, Options::default());
    let whole = guard(&format!("text {} {:?}", w, md), || match how {
        0 => skin.text(&md, Some(w)),
        1 => FmtText::from(&skin, &md, Some(w)),
        3 => {
            // wrapped afterwards
            let t = FmtText::from(&skin, &md, None);
            FmtText { skin: &skin, lines: wrap::hard_wrap_lines(t.lines, w, &skin).unwrap(), width: Some(w) }
        }
        _ => FmtText::from_text(&skin, parse_text(&md, Options::default()), Some(w)),
    });
    let whole = match whole {
        Ok(t) => t,
        Err(m) => {
            evs.push(format!("{{\"how\":\"whole\",\"w\":{},\"md\":{},\"p\":true,\"msg\":{}}}", w, jstr(&md), jstr(&m)));
            emit(out, &skin, &mut evs);
            return;
        }
    };
    // parts: a normal line or a table
    let mut idx = 0;
    let mut i = 0;
    let ll = &src.lines;
    while i < ll.len() {
        let mut j = i + 1;
        let is_tbl = |l: &Line| matches!(l, Line::TableRow(_) | Line::TableRule(_));
        if is_tbl(&ll[i]) {
            while j < ll.len() && is_tbl(&ll[j]) {
                j += 1;
            }
        }
        let part = Text { lines: ll[i..j].to_vec() };
        let n = match guard("part", || FmtText::from_text(&skin, part, Some(w)).lines.len()) {
            Ok(n) => n,
            Err(m) => {
                evs.push(format!("{{\"how\":\"whole\",\"w\":{},\"md\":{},\"p\":true,\"msg\":{}}}", w, jstr(&md), jstr(&m)));
                break;
            }
        };
        if let Line::Normal(c) = &ll[i] {
            let fc = FmtComposite::from(Composite { style: c.style, compounds: c.compounds.clone() }, &skin);
            let ls = skin.line_style(fc.kind);
            let h = head("text", &fc, w, ls.left_margin, ls.right_margin, -1);
            let v: Vec<String> = whole
                .lines
                .iter()
                .skip(idx)
                .take(n)
                .map(|l| match l {
                    FmtLine::Normal(fc) => fc_json(fc, rendered_width(&skin, l, w)),
                    _ => "{\"kind\":\"?\",\"d\":0,\"s\":[],\"vl\":0,\"sp\":-1,\"rw\":0}".to_string(),
                })
                .collect();
            evs.push(format!("{{{},\"p\":false,\"ll\":{},\"lines\":[{}]}}", h, skin.visible_line_length(&ll[i]), v.join(",")));
        }
        idx += n;
        i = j;
    }
    evs.push(format!(
        "{{\"how\":\"whole\",\"w\":{},\"md\":{},\"p\":false,\"nl\":{},\"sum\":{}}}",
        w,
        jstr(&md),
        whole.lines.len(),
        idx
    ));
    emit(out, &skin, &mut evs);
}

pub fn run(seed: u64, prop: &str, thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, prop);
    dense(&mut r, out, budget / 2, thorough);
    let mut k = 0;
    while out.events < budget {
        k += 1;
        if k % 2 == 0 {
            lines(&mut r, out);
        } else {
            texts(&mut r, out);
        }
    }
}
