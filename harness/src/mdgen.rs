//! Seeded generator of markdown texts and of skins.
use crate::rng::Rng;
use termimad::crossterm::style::{Attribute, Color};
use termimad::minimad::Alignment;
use termimad::*;

#[derive(Clone, Debug)]
pub struct MdOpts {
    pub lines: usize,
    pub words: usize,
    pub wide: bool,
    pub zero: bool,
    pub tables: bool,
    pub max_depth: usize,
    pub headers: bool,
    pub code: bool,
    pub hr: bool,
    pub long_words: bool,
    /// bullets and quote marks in table cells
    pub cell_marks: bool,
    /// most words in a cell, 8 if 0
    pub cell_words: usize,
}
impl Default for MdOpts {
    fn default() -> Self {
        MdOpts {
            lines: 8,
            words: 8,
            wide: true,
            zero: true,
            tables: true,
            max_depth: 3,
            headers: true,
            code: true,
            hr: true,
            long_words: true,
            cell_marks: false,
            cell_words: 0,
        }
    }
}

pub fn word(r: &mut Rng, o: &MdOpts) -> String {
    let n = if o.long_words && r.chance(8) { r.range(8, 40) } else { r.range(1, 7) };
    let kind = r.below(100);
    let mut s = String::new();
    for k in 0..n {
        let c = if o.wide && (kind < 12 || (kind < 30 && r.chance(20))) {
            *r.pick(&['日', '本', '語', '漢', '😀', '字'])
        } else if r.chance(6) {
            *r.pick(&['é', 'ß', 'Ω', '.', ',', '(', ')', '/', '!', ':'])
        } else {
            (b'a' + r.below(26) as u8) as char
        };
        s.push(c);
        if o.zero && k + 1 < n && r.chance(if kind > 90 { 30 } else { 1 }) {
            s.push(*r.pick(&['\u{301}', '\u{200b}', '\u{327}']));
        }
    }
    s
}

pub fn blank(r: &mut Rng) -> String {
    match r.below(20) {
        0 => "  ".into(),
        1 => "   ".into(),
        2 if r.chance(20) => " ".repeat(r.range(4, 20)),
        3 if r.chance(20) => "\u{a0}".into(),
        4 if r.chance(10) => "\u{3000}".into(),
        _ => " ".into(),
    }
}

/// words with inline styles, nested and adjacent ones included
pub fn inline(r: &mut Rng, o: &MdOpts, words: usize) -> String {
    let mut s = String::new();
    let styled = r.below(60);
    let tags = ["*", "**", "`", "~~"];
    let mut open: Vec<&str> = vec![];
    for k in 0..words {
        if k > 0 && !r.chance(4) {
            s.push_str(&blank(r));
        }
        if r.chance(styled) {
            let t = *r.pick(&tags);
            if open.last() == Some(&"`") {
                // nothing opens in a code
            } else if !open.contains(&t) {
                // `*` and `**` must not touch
                if !s.ends_with('*') && !s.ends_with('~') || t == "`" {
                    s.push_str(t);
                    open.push(t);
                }
            }
        }
        s.push_str(&word(r, o));
        if !open.is_empty() && r.chance(45) {
            if r.chance(10) {
                s.push_str(&blank(r));
            }
            s.push_str(open.pop().unwrap());
        }
    }
    while let Some(t) = open.pop() {
        s.push_str(t);
    }
    s
}

pub fn cell(r: &mut Rng, o: &MdOpts) -> String {
    let n = match r.below(10) {
        0 | 1 => 0,
        2..=6 => r.range(1, 2),
        _ => r.range(1, 8.max(o.cell_words)),
    };
    let mut s = inline(r, o, n);
    if o.cell_marks && r.chance(8) {
        s.insert_str(0, *r.pick(&["* ", " * ", "> ", "  * "]));
    }
    s
}

pub fn rule(r: &mut Rng, cols: usize) -> String {
    let mut s = String::from("|");
    for _ in 0..cols {
        s.push_str(*r.pick(&["-", ":-", ":-:", "-:", "---", ":--", ":---:", "--:"]));
        s.push('|');
    }
    s
}

pub fn table(r: &mut Rng, o: &MdOpts) -> Vec<String> {
    let cols = if r.chance(2) { r.range(6, 20) } else { r.range(1, 5) };
    let mut v = vec![];
    if r.chance(60) {
        v.push(rule(r, cols));
    }
    let rows = if r.chance(2) { r.range(6, 20) } else { r.range(1, 5) };
    for k in 0..rows {
        let c = if r.chance(15) { r.range(1, 6) } else { cols };
        let mut s = String::from("|");
        for i in 0..c {
            let t = cell(r, o);
            // an empty line would be parsed as a rule
            s.push_str(&t);
            if i + 1 < c || !r.chance(10) {
                s.push('|');
            }
        }
        if s.chars().all(|c| c == '|') {
            s = format!("|{}|", word(r, o));
        }
        v.push(s);
        if r.chance(if k == 0 { 60 } else { 15 }) {
            let c = if r.chance(10) { r.range(1, 6) } else { cols };
            v.push(rule(r, c));
        }
    }
    if r.chance(40) {
        v.push(rule(r, cols));
    }
    v
}

pub fn text(r: &mut Rng, o: &MdOpts) -> String {
    let mut v: Vec<String> = vec![];
    let n = r.range(1, o.lines.max(1));
    while v.len() < n {
        let w = r.range(1, o.words.max(1));
        match r.below(20) {
            0..=5 => v.push(inline(r, o, w)),
            6 => v.push(String::new()),
            7..=8 if o.headers => {
                let l = r.range(1, 8);
                v.push(format!("{} {}", "#".repeat(l), inline(r, o, w)))
            }
            9..=11 => {
                let d = r.below(o.max_depth + 1);
                v.push(format!("{}* {}", " ".repeat(d), inline(r, o, w)))
            }
            12..=13 => v.push(if r.chance(10) { ">".into() } else { format!("> {}", inline(r, o, w)) }),
            14..=15 if o.code => {
                let k = r.range(1, 4);
                let fence = r.chance(50);
                if fence {
                    v.push("```".into());
                }
                for _ in 0..k {
                    let w = r.below(6);
                    let mut s = String::new();
                    for _ in 0..w {
                        s.push_str(&blank(r));
                        s.push_str(&word(r, o));
                    }
                    v.push(if fence { s } else { format!("    {}", s) });
                }
                if fence {
                    v.push("```".into());
                }
            }
            16 if o.hr => v.push("---".into()),
            17..=18 if o.tables => v.extend(table(r, o)),
            _ => v.push(inline(r, o, w)),
        }
    }
    v.join("\n")
}

/// a skin where all the styles can be told apart
pub fn skin(r: &mut Rng, kind: usize) -> MadSkin {
    let mut s = match kind {
        0 => MadSkin::default(),
        1 => MadSkin::no_style(),
        2 => MadSkin::default_dark(),
        _ => MadSkin::default(),
    };
    if kind >= 3 {
        let mut k = 20u8;
        let mut c = || {
            k += 1;
            Color::AnsiValue(k)
        };
        s.paragraph.compound_style = if r.chance(50) { CompoundStyle::with_fg(c()) } else { CompoundStyle::with_fgbg(c(), c()) };
        s.bold = CompoundStyle::new(Some(c()), None, Attribute::Bold.into());
        s.italic = CompoundStyle::new(None, Some(c()), Attribute::Italic.into());
        s.strikeout = CompoundStyle::with_attr(Attribute::CrossedOut);
        s.inline_code = CompoundStyle::with_fgbg(c(), c());
        s.code_block.compound_style = CompoundStyle::with_fgbg(c(), c());
        s.table.compound_style = CompoundStyle::with_fg(c());
        s.ellipsis = CompoundStyle::with_fg(c());
        s.bullet = StyledChar::from_fg_char(c(), *r.pick(&['•', '*', '▸']));
        s.quote_mark = StyledChar::from_fg_char(c(), '▐');
        s.horizontal_rule = StyledChar::from_fg_char(c(), '―');
        for h in 0..8 {
            s.headers[h].compound_style = CompoundStyle::with_fgbg(c(), c());
        }
        let als = [Alignment::Left, Alignment::Center, Alignment::Right, Alignment::Unspecified];
        let m = |r: &mut Rng| if r.chance(50) { 0 } else { r.below(5) };
        for ls in [&mut s.paragraph, &mut s.code_block, &mut s.table].into_iter().chain(s.headers.iter_mut()) {
            ls.align = *r.pick(&als);
            ls.left_margin = m(r);
            ls.right_margin = m(r);
        }
    }
    if kind == 4 || kind != 0 && r.chance(25) {
        s.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly;
    }
    if kind == 5 {
        s.limit_to_ascii();
    }
    s.scrollbar.thumb = StyledChar::from_fg_char(Color::AnsiValue(5), '#');
    s.scrollbar.track = StyledChar::from_fg_char(Color::AnsiValue(6), '.');
    s
}
