//! Styles and skins driver (C20, C25, C29): parsing, writing, composing, changing.
use crate::emu::{linear_with, Emu, Sty};
use crate::out::*;
use crate::rng::Rng;
use std::fmt;
use termimad::crossterm::terminal::ClearType;
use termimad::crossterm::style::{Attribute, Attributes, Color, ContentStyle};
use termimad::minimad::{Alignment, Compound};
use termimad::*;

const ATTRS: &[Attribute] = &[
    Attribute::Bold, Attribute::Dim, Attribute::Italic, Attribute::Underlined, Attribute::SlowBlink,
    Attribute::RapidBlink, Attribute::Reverse, Attribute::CrossedOut, Attribute::Encircled, Attribute::OverLined,
    Attribute::DoubleUnderlined, Attribute::Undercurled, Attribute::Underdotted, Attribute::Underdashed, Attribute::Hidden,
    Attribute::Fraktur, Attribute::NoBold, Attribute::NormalIntensity, Attribute::NoItalic, Attribute::NoUnderline,
    Attribute::NoBlink, Attribute::NoReverse, Attribute::NoHidden, Attribute::NotCrossedOut, Attribute::Framed,
    Attribute::NotFramedOrEncircled, Attribute::NotOverLined,
];
const NAMED: &[(Color, i32)] = &[
    (Color::Black, 0), (Color::DarkRed, 1), (Color::DarkGreen, 2), (Color::DarkYellow, 3), (Color::DarkBlue, 4),
    (Color::DarkMagenta, 5), (Color::DarkCyan, 6), (Color::Grey, 7), (Color::DarkGrey, 8), (Color::Red, 9),
    (Color::Green, 10), (Color::Yellow, 11), (Color::Blue, 12), (Color::Magenta, 13), (Color::Cyan, 14),
    (Color::White, 15), (Color::Reset, -1),
];
fn col(c: Option<Color>) -> String {
    match c {
        None => "[]".into(),
        Some(Color::AnsiValue(n)) => format!("[{n}]"),
        Some(Color::Rgb { r, g, b }) => format!("[{r},{g},{b}]"),
        Some(c) => format!("[{}]", NAMED.iter().find(|x| x.0 == c).unwrap().1),
    }
}
fn al(a: Alignment) -> &'static str {
    crate::rd::al(a)
}
fn ats(a: Attributes) -> String {
    let v: Vec<String> =
        Attribute::iterator().filter(|x| *x != Attribute::Reset && a.has(*x)).map(|x| format!("\"{}\"", x.sgr())).collect();
    format!("[{}]", v.join(","))
}
fn cs(s: &CompoundStyle) -> String {
    format!("{{\"fg\":{},\"bg\":{},\"at\":{}}}", col(s.get_fg()), col(s.get_bg()), ats(s.attrs()))
}
fn ls(s: &LineStyle) -> String {
    format!("{{\"cs\":{},\"al\":\"{}\",\"ml\":{},\"mr\":{}}}", cs(&s.compound_style), al(s.align), s.left_margin, s.right_margin)
}
fn sc(s: &StyledChar) -> String {
    format!("{{\"c\":{},\"cs\":{}}}", s.nude_char() as u32, cs(s.compound_style()))
}
fn sb(s: &ScrollBarStyle) -> String {
    format!("{{\"track\":{},\"thumb\":{}}}", sc(&s.track), sc(&s.thumb))
}
fn skin(k: &MadSkin) -> String {
    let h: Vec<String> = k.headers.iter().map(ls).collect();
    let mut special: Vec<(&str, String)> = k.special_chars.iter().map(|(c, x)| (c.src, sc(x))).collect();
    special.sort();
    let special: Vec<String> = special.into_iter().map(|(_, x)| x).collect();
    format!(
        "{{\"para\":{},\"code\":{},\"table\":{},\"h\":[{}],\"bold\":{},\"italic\":{},\"strike\":{},\"icode\":{},\"ell\":{},\"bullet\":{},\"quote\":{},\"hr\":{},\"track\":{},\"thumb\":{},\"tb\":\"{}\",\"mode\":\"{}\",\"sp\":[{}]}}",
        ls(&k.paragraph), ls(&k.code_block), ls(&k.table), h.join(","), cs(&k.bold), cs(&k.italic), cs(&k.strikeout),
        cs(&k.inline_code), cs(&k.ellipsis), sc(&k.bullet), sc(&k.quote_mark), sc(&k.horizontal_rule),
        sc(&k.scrollbar.track), sc(&k.scrollbar.thumb),
        if k.table_border_chars == STANDARD_TABLE_BORDER_CHARS { "standard" }
        else if k.table_border_chars == ASCII_TABLE_BORDER_CHARS { "ascii" }
        else if k.table_border_chars == ROUNDED_TABLE_BORDER_CHARS { "rounded" }
        else { "?" },
        if k.list_items_indentation_mode == ListItemsIndentationMode::Block { "block" } else { "first" },
        special.join(",")
    )
}
fn token(t: &StyleToken) -> String {
    match t {
        StyleToken::None => "{\"k\":\"none\",\"v\":[]}".into(),
        StyleToken::Dimension(n) => format!("{{\"k\":\"dim\",\"v\":[{n}]}}"),
        StyleToken::Color(c) => format!("{{\"k\":\"col\",\"v\":{}}}", col(Some(*c))),
        StyleToken::Attribute(a) => format!("{{\"k\":\"att\",\"v\":[\"{}\"]}}", a.sgr()),
        StyleToken::Align(a) => format!("{{\"k\":\"al\",\"v\":[\"{}\"]}}", al(*a)),
        StyleToken::Char(c) => format!("{{\"k\":\"chr\",\"v\":[{}]}}", *c as u32),
    }
}
const BAD: &str = "{\"k\":\"bad\",\"v\":[]}";

/// what is displayed: cells with style, colors as here
fn shown(s: &str) -> String {
    let (cells, odd) = linear_with(s, true);
    if odd == 0 { cells_json(&cells) } else { format!("[{{\"c\":0,\"s\":{NOSTYLE}}}]") }
}
/// a line of 3 cells which had something, cleared
fn cleared(s: &CompoundStyle) -> String {
    let mut q = vec![];
    s.clear(&mut q, ClearType::UntilNewLine).unwrap();
    let mut e = Emu::new(3, 1);
    e.flags = true;
    e.junk();
    e.feed(&utf(q));
    let cells: Vec<(char, Sty)> = e.grid[0].iter().map(|c| (c.chars.first().copied().unwrap_or('?'), c.sty.clone())).collect();
    cells_json(&cells)
}
fn cells_json(cells: &[(char, Sty)]) -> String {
    let c = |x: &str| -> String {
        if x.is_empty() {
            "[]".into()
        } else if let Some(n) = x.strip_prefix('a') {
            format!("[{n}]")
        } else if let Some(n) = x.strip_prefix('r') {
            format!("[{}]", n.replace('.', ","))
        } else {
            "[-9]".into()
        }
    };
    let v: Vec<String> = cells
        .iter()
        .map(|(ch, y)| {
            let a: Vec<String> = y.attrs.iter().map(|a| format!("\"{a}\"")).collect();
            format!("{{\"c\":{},\"s\":{{\"fg\":{},\"bg\":{},\"at\":[{}]}}}}", *ch as u32, c(&y.fg), c(&y.bg), a.join(","))
        })
        .collect();
    format!("[{}]", v.join(","))
}

// ---------------------------------------------------------------- generation
fn rcolor(r: &mut Rng) -> Color {
    match r.below(5) {
        0 | 1 => r.pick(NAMED).0,
        2 => Color::AnsiValue(*r.pick(&[0, 1, 15, 16, 17, 100, 231, 232, 255])),
        3 => Color::AnsiValue(r.below(256) as u8),
        _ => Color::Rgb { r: r.below(256) as u8, g: *r.pick(&[0, 9, 10, 100, 255]), b: r.below(256) as u8 },
    }
}
fn rcs(r: &mut Rng) -> CompoundStyle {
    let mut a = Attributes::default();
    for _ in 0..r.below(4) {
        a.set(*r.pick(ATTRS));
    }
    let fg = if r.chance(55) { Some(rcolor(r)) } else { None };
    let bg = if r.chance(50) { Some(rcolor(r)) } else { None };
    CompoundStyle::new(fg, bg, a)
}
fn ral(r: &mut Rng) -> Alignment {
    *r.pick(&[Alignment::Left, Alignment::Center, Alignment::Right, Alignment::Unspecified])
}
fn rls(r: &mut Rng) -> LineStyle {
    let mut l = LineStyle::new(rcs(r), ral(r));
    if r.chance(50) {
        l.left_margin = *r.pick(&[0, 0, 1, 2, 9, 10, 255, 65535]);
        l.right_margin = *r.pick(&[0, 0, 1, 3, 12, 256, 40000]);
    }
    l
}
const MARKS: &[char] = &['*', '|', '-', '>', '~', '•', '▐', '―', 'a', 'Z', '#', '_', '☐', '❱', '一', ',', '=', '.', '%'];
fn rsc(r: &mut Rng) -> StyledChar {
    let c = *r.pick(MARKS);
    StyledChar::new(rcs(r), c)
}
fn rsb(r: &mut Rng) -> ScrollBarStyle {
    let mut s = ScrollBarStyle::new();
    match r.below(4) {
        0 => {
            s.thumb.set_fg(rcolor(r));
            s.track.set_fg(rcolor(r));
        }
        1 => {
            let c = *r.pick(MARKS);
            s.thumb = StyledChar::from_fg_char(rcolor(r), c);
            s.track = StyledChar::from_fg_char(rcolor(r), c);
            if r.chance(30) {
                s.set_bg(rcolor(r));
            }
        }
        _ => {
            s.thumb = rsc(r);
            s.track = rsc(r);
            if r.chance(50) {
                let c = s.thumb.get_char();
                s.track.set_char(c);
            }
        }
    }
    s
}
fn rskin(r: &mut Rng) -> MadSkin {
    let mut k = match r.below(4) {
        0 => MadSkin::default(),
        1 => MadSkin::no_style(),
        2 => MadSkin::default_dark(),
        _ => MadSkin::default_light(),
    };
    for _ in 0..r.below(12) {
        match r.below(17) {
            0 => k.paragraph = rls(r),
            1 => k.code_block = rls(r),
            2 => k.table = rls(r),
            3 => {
                let i = r.below(k.headers.len());
                k.headers[i] = rls(r)
            }
            4 => k.bold = rcs(r),
            5 => k.italic = rcs(r),
            6 => k.strikeout = rcs(r),
            7 => k.inline_code = rcs(r),
            8 => k.ellipsis = rcs(r),
            9 => k.bullet = rsc(r),
            10 => k.quote_mark = rsc(r),
            11 => k.horizontal_rule = rsc(r),
            12 | 13 => k.scrollbar = rsb(r),
            14 => k.table_border_chars = ROUNDED_TABLE_BORDER_CHARS,
            15 => k.table_border_chars = ASCII_TABLE_BORDER_CHARS,
            _ => {
                k.list_items_indentation_mode = if r.chance(60) {
                    ListItemsIndentationMode::FirstLineOnly
                } else {
                    ListItemsIndentationMode::Block
                }
            }
        }
    }
    k
}

const WORDS: &[&str] = &[
    "black", "white", "red", "darkred", "green", "darkgreen", "yellow", "darkyellow", "blue", "darkblue", "magenta",
    "darkmagenta", "cyan", "darkcyan", "grey", "gray", "darkgrey", "darkgray", "bold", "dim", "italic", "underlined",
    "under_lined", "under-lined", "slowblink", "slow_blink", "slow-blink", "rapidblink", "rapid-blink", "rapid_blink",
    "reverse", "crossedout", "crossed-out", "crossed_out", "strikeout", "encircled", "overlined", "over_lined",
    "over-lined", "left", "center", "right", "none", "reset",
    "undercurled", "underdotted", "underdashed", "hidden", "fraktur", "framed", "doubleunderlined",
    "double_underlined", "double-underlined", "nobold", "no_bold", "no-bold", "normalintensity", "normal_intensity",
    "normal-intensity", "noitalic", "no_italic", "no-italic", "nounderline", "no_underline", "no-underline",
    "noblink", "no_blink", "no-blink", "noreverse", "no_reverse", "no-reverse", "nohidden",
    "no_hidden", "no-hidden", "notcrossedout", "not_crossed_out", "not-crossed-out", "notframedorencircled", "not_framed_or_encircled",
    "not-framed-or-encircled", "notoverlined", "not_over_lined", "not-over-lined",
];
fn cased(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => s.chars().map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c }).collect(),
        2 => {
            let mut c = s.chars();
            c.next().map(|f| f.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default()
        }
        _ => s.to_string(),
    }
}
/// text of a token, most often a right one
fn rtok(r: &mut Rng, bad: usize) -> String {
    let n255 = |r: &mut Rng| match r.below(6) {
        0 => "0".to_string(),
        1 => "255".to_string(),
        2 => "007".to_string(),
        _ => r.below(256).to_string(),
    };
    let t = match r.below(12) {
        0..=3 => {
            let w = *r.pick(WORDS);
            cased(r, w)
        }
        4 => format!("{}({})", cased(r, "ansi"), n255(r)),
        5 => {
            let g = *r.pick(&["gray", "grey", "grayscale", "greyscale"]);
            format!("{}({})", cased(r, g), r.below(24))
        }
        6 => {
            let s1 = *r.pick(&["", " ", "  "]);
            let s2 = *r.pick(&["", " ", "\t"]);
            format!("{}({},{}{},{}{})", cased(r, "rgb"), n255(r), s1, n255(r), s2, n255(r))
        }
        7 => {
            let n = if r.chance(50) { 3 } else { 6 };
            let s: String = (0..n).map(|_| *r.pick(&['0', '1', '9', 'a', 'b', 'f', 'A', 'F', 'c', '5'])).collect();
            format!("#{s}")
        }
        8 => r.pick(&["0", "1", "2", "12", "255", "256", "65535", "007"]).to_string(),
        9 | 10 => r.pick(MARKS).to_string(),
        _ => {
            let w = *r.pick(WORDS);
            w.to_string()
        }
    };
    if !r.chance(bad) {
        return t;
    }
    match r.below(8) {
        0 => format!("{t}{}", r.pick(&["x", "s", "ed", "-", "1", "é"])),
        1 => format!("{}{t}", r.pick(&["x", "un", "no", "-", "light", "é"])),
        2 => {
            let mut c: Vec<char> = t.chars().collect();
            let i = r.below(c.len());
            c.remove(i);
            c.into_iter().collect()
        }
        3 => {
            let mut c: Vec<char> = t.chars().collect();
            let i = r.below(c.len());
            c[i] = *r.pick(&['x', '_', '-', 'e', '9', 'g']);
            c.into_iter().collect()
        }
        4 => r
            .pick(&[
                "gray(24)", "grey(255)", "grey(256)", "ansi(256)", "ansi(1000)", "rgb(256,0,0)", "rgb(0,0,300)",
                "rgb(1,2)", "rgb(1,2,3,4)", "65536", "99999", "123456789", "ansi(-1)", "hsl(1,2,3)", "ansi(a)",
                "gray(1,2)", "rgb(1,2,c)", "#12", "#1234567", "#ggg", "#", "ansi", "rgb", "light", "boldred", "redbold",
                "leftright", "#12g456", "1px", "-1", "1.5", "blink", "hidden", "nobold", "underline", "centered",
            ])
            .to_string(),
        5 => {
            let a = *r.pick(WORDS);
            let b = *r.pick(WORDS);
            format!("{a}{}{b}", r.pick(&["", "-", "_", ","]))
        }
        6 => format!("{t}{t}"),
        _ => t,
    }
}
/// is it in the domain of the specification?
fn in_domain(s: &str) -> bool {
    if s.contains('+') {
        return false;
    }
    for w in s.split(|c: char| c.is_whitespace() || c == '(' || c == ')') {
        if w.starts_with('#') && (w.len() == 5 || w.len() == 6) {
            return false;
        }
    }
    true
}
fn rtext(r: &mut Rng, bad: usize) -> String {
    loop {
        let n = r.below(6);
        let mut s = String::new();
        if r.chance(20) {
            s.push_str(r.pick(&[" ", "\t", "\n  "]));
        }
        for i in 0..n {
            if i > 0 {
                s.push_str(r.pick(&[" ", " ", " ", "  ", "\t", "\n", "\u{a0}"]));
            }
            s.push_str(&rtok(r, bad));
        }
        if r.chance(20) {
            s.push(' ');
        }
        if in_domain(&s) {
            return s;
        }
    }
}

/// give access to functions needing a formatter
struct Fm<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result>(F);
impl<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> fmt::Display for Fm<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}
fn utf(v: Vec<u8>) -> String {
    String::from_utf8_lossy(&v).to_string()
}

struct Tr {
    s: String,
    n: usize,
    dead: bool,
}
impl Tr {
    fn new(head: &str) -> Self {
        Tr { s: format!("{{{head}\"ev\":["), n: 0, dead: false }
    }
    /// add an event; what's given by the closure completes the head
    fn ev(&mut self, head: String, f: impl FnOnce() -> String) {
        if self.n > 0 {
            self.s.push(',');
        }
        self.n += 1;
        match guard(&head, f) {
            Ok(r) => self.s.push_str(&format!("{{{head},{r},\"p\":0}}")),
            Err(m) => {
                self.dead = true;
                self.s.push_str(&format!("{{{head},\"msg\":{},\"p\":1}}", jstr(&m)))
            }
        }
    }
    fn done(mut self, out: &mut Out) {
        self.s.push_str("]}");
        if self.n > 0 {
            out.line(&self.s, self.n);
        }
    }
}
fn de<T: serde::de::DeserializeOwned>(j: &str) -> Option<T> {
    serde_json::from_str(j).ok()
}
fn or_bad<T>(x: Option<T>, f: impl Fn(&T) -> String) -> String {
    x.map(|x| format!("\"ok\":true,\"r\":{}", f(&x))).unwrap_or("\"ok\":false".into())
}

fn parsing(r: &mut Rng, out: &mut Out, n: usize) {
    let mut t = Tr::new("");
    for _ in 0..n {
        let bad = *r.pick(&[0, 15, 60]);
        if r.chance(4) {
            // the builders of colors
            let v = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
            let l = if r.chance(50) { r.below(30) as u8 } else { v[0] };
            t.ev(format!("\"o\":\"mk\",\"v\":[{},{},{}],\"l\":{l}", v[0], v[1], v[2]), || {
                format!("\"rgb\":{},\"gray\":{},\"ansi\":{}", col(Some(rgb(v[0], v[1], v[2]))), col(Some(gray(l))), col(Some(ansi(v[0]))))
            });
        }
        match r.below(10) {
            0..=2 => {
                let s = loop {
                    let s = rtok(r, bad);
                    if in_domain(&s) {
                        break s;
                    }
                };
                t.ev(format!("\"o\":\"tok\",\"s\":{}", cps(&s)), || {
                    format!(
                        "\"r\":{},\"col\":{},\"att\":{},\"al\":{}",
                        parse_style_token(&s).map(|t| token(&t)).unwrap_or(BAD.into()),
                        parse_color(&s).map(|c| token(&StyleToken::Color(c))).unwrap_or(BAD.into()),
                        parse_attribute(&s).map(|c| token(&StyleToken::Attribute(c))).unwrap_or(BAD.into()),
                        parse_align(&s).map(|c| token(&StyleToken::Align(c))).unwrap_or(BAD.into()),
                    )
                });
            }
            3 | 4 => {
                let s = rtext(r, bad);
                t.ev(format!("\"o\":\"toks\",\"s\":{}", cps(&s)), || match parse_style_tokens(&s) {
                    Ok(v) => format!("\"ok\":true,\"r\":[{}]", v.iter().map(token).collect::<Vec<_>>().join(",")),
                    Err(_) => "\"ok\":false".into(),
                });
            }
            5 | 6 => {
                let s = rtext(r, bad);
                let via = *r.pick(&["parse", "json"]);
                t.ev(format!("\"o\":\"cs\",\"s\":{}", cps(&s)), || {
                    or_bad(if via == "json" { de::<CompoundStyle>(&jstr(&s)) } else { parse_compound_style(&s).ok() }, cs)
                });
            }
            7 | 8 => {
                let s = rtext(r, bad);
                let via = *r.pick(&["parse", "json"]);
                t.ev(format!("\"o\":\"ls\",\"s\":{}", cps(&s)), || {
                    or_bad(if via == "json" { de::<LineStyle>(&jstr(&s)) } else { parse_line_style(&s).ok() }, ls)
                });
            }
            _ => {
                let s = rtext(r, bad);
                let via = *r.pick(&["parse", "json"]);
                let d = if via == "json" { '*' } else { *r.pick(MARKS) };
                t.ev(format!("\"o\":\"sc\",\"s\":{},\"d\":{}", cps(&s), d as u32), || {
                    or_bad(if via == "json" { de::<StyledChar>(&jstr(&s)) } else { parse_styled_char(&s, d).ok() }, sc)
                });
            }
        }
    }
    t.done(out);
}

fn written<T: PushStyleTokens + serde::Serialize>(x: &T) -> String {
    let mut toks = vec![];
    x.push_style_tokens(&mut toks);
    let mut w = vec![];
    write_style_tokens(&mut w, &toks).unwrap();
    let j = serde_json::to_string(x).unwrap();
    let js: String = serde_json::from_str(&j).unwrap_or_default();
    format!(
        "\"w\":[{},{},{},{}]",
        cps(&x.to_style_tokens_string()),
        cps(&style_tokens_to_string(&toks)),
        cps(&utf(w)),
        cps(&js)
    )
}

/// the entries of a JSON object, in order
fn entries(j: &str) -> Option<String> {
    let v: serde_json::Value = serde_json::from_str(j).ok()?;
    let o = v.as_object()?;
    let mut s = vec![];
    for (k, v) in o {
        s.push(entry(k, v)?);
    }
    Some(format!("[{}]", s.join(",")))
}
fn entry(k: &str, v: &serde_json::Value) -> Option<String> {
    let word = k.starts_with("table_border") || k.starts_with("table-border") || k.starts_with("list");
    Some(match v {
        serde_json::Value::String(t) if word => format!("{{\"k\":\"{k}\",\"t\":\"w\",\"v\":{}}}", jstr(t)),
        serde_json::Value::String(t) => format!("{{\"k\":\"{k}\",\"t\":\"s\",\"v\":{}}}", cps(t)),
        serde_json::Value::Array(a) => {
            let a: Option<Vec<String>> = a.iter().map(|x| x.as_str().map(cps)).collect();
            format!("{{\"k\":\"{k}\",\"t\":\"l\",\"v\":[{}]}}", a?.join(","))
        }
        serde_json::Value::Object(m) => {
            let (a, b) = (m.get("track")?.as_str()?, m.get("thumb")?.as_str()?);
            format!("{{\"k\":\"{k}\",\"t\":\"m\",\"v\":{{\"track\":{},\"thumb\":{}}}}}", cps(a), cps(b))
        }
        _ => return None,
    })
}

fn writing(r: &mut Rng, out: &mut Out, n: usize) {
    let mut t = Tr::new("");
    for _ in 0..n {
        match r.below(8) {
            0 | 1 => {
                let x = rcs(r);
                t.ev(format!("\"o\":\"wcs\",\"x\":{}", cs(&x)), || {
                    let b = parse_compound_style(&x.to_style_tokens_string()).ok();
                    let b2 = serde_json::to_string(&x).ok().and_then(|j| de::<CompoundStyle>(&j));
                    format!("{},\"b\":[{},{}]", written(&x), cs(&b.expect("reparsed")), cs(&b2.expect("reparsed")))
                });
            }
            2 | 3 => {
                let x = rls(r);
                t.ev(format!("\"o\":\"wls\",\"x\":{}", ls(&x)), || {
                    let b = parse_line_style(&x.to_style_tokens_string()).ok();
                    let b2 = serde_json::to_string(&x).ok().and_then(|j| de::<LineStyle>(&j));
                    format!("{},\"b\":[{},{}]", written(&x), ls(&b.expect("reparsed")), ls(&b2.expect("reparsed")))
                });
            }
            4 | 5 => {
                let x = rsc(r);
                t.ev(format!("\"o\":\"wsc\",\"x\":{}", sc(&x)), || {
                    let b = parse_styled_char(&x.to_style_tokens_string(), '?').ok();
                    let b2 = serde_json::to_string(&x).ok().and_then(|j| de::<StyledChar>(&j));
                    format!("{},\"b\":[{},{}]", written(&x), sc(&b.expect("reparsed")), sc(&b2.expect("reparsed")))
                });
            }
            6 => {
                // a token alone
                let x = match r.below(5) {
                    0 | 1 => StyleToken::Color(rcolor(r)),
                    2 => StyleToken::Attribute(*r.pick(ATTRS)),
                    3 => StyleToken::Dimension(*r.pick(&[0, 1, 10, 255, 65535])),
                    _ => *r.pick(&[
                        StyleToken::None,
                        StyleToken::Align(Alignment::Left),
                        StyleToken::Align(Alignment::Center),
                        StyleToken::Align(Alignment::Right),
                        StyleToken::Char('|'),
                        StyleToken::Char('一'),
                        StyleToken::Char('x'),
                    ]),
                };
                t.ev(format!("\"o\":\"wtok\",\"x\":{}", token(&x)), || {
                    let s = x.to_string();
                    format!("\"w\":{},\"b\":{}", cps(&s), parse_style_token(&s).map(|t| token(&t)).unwrap_or(BAD.into()))
                });
            }
            _ => {
                let x = rsb(r);
                t.ev(format!("\"o\":\"wsb\",\"x\":{}", sb(&x)), || {
                    let mut k = MadSkin::no_style();
                    k.scrollbar = x.clone();
                    let v = serde_json::to_value(&k).unwrap();
                    let b: MadSkin = serde_json::from_value(v.clone()).expect("reparsed");
                    let b2: MadSkin = de(&format!("{{\"scrollbar\":{}}}", v["scrollbar"])).expect("reparsed");
                    format!(
                        "\"e\":{},\"b\":[{},{}]",
                        entry("scrollbar", &v["scrollbar"]).expect("scrollbar entry"),
                        sb(&b.scrollbar),
                        sb(&b2.scrollbar)
                    )
                });
            }
        }
    }
    t.done(out);
}

fn key(r: &mut Rng, k: &str) -> String {
    k.split('|').collect::<Vec<_>>()[r.below(k.split('|').count())].to_string()
}
fn rentries(r: &mut Rng) -> (String, String) {
    let mut js = vec![];
    let mut es = vec![];
    for _ in 0..r.below(9) {
        let bad = *r.pick(&[0, 0, 0, 4]);
        let (k, v) = match r.below(15) {
            14 => (key(r, "Bold|colour|quotes|header|strike|scroll_bar|"), serde_json::Value::String(rtext(r, bad))),
            0..=6 => (
                key(r, "bold|italic|strikeout|inline_code|inline-code|ellipsis|bullet|quote_mark|quote|quote-mark|horizontal_rule|horizontal-rule|rule|paragraph|code_block|code-block|table|headers|scrollbar"),
                serde_json::Value::String(rtext(r, bad)),
            ),
            7 | 8 => ("headers".to_string(), serde_json::Value::String(rtext(r, bad))),
            9 => (
                "headers".to_string(),
                serde_json::Value::Array((0..r.below(11)).map(|_| serde_json::Value::String(rtext(r, bad))).collect()),
            ),
            10 => {
                let mut m = serde_json::Map::new();
                m.insert("track".into(), serde_json::Value::String(rtext(r, bad)));
                m.insert("thumb".into(), serde_json::Value::String(rtext(r, bad)));
                ("scrollbar".to_string(), serde_json::Value::Object(m))
            }
            11 => ("scrollbar".to_string(), serde_json::Value::String(rtext(r, bad))),
            12 => (
                key(r, "table_border_chars|table-border-chars"),
                serde_json::Value::String(key(r, "standard|ascii|rounded|double")),
            ),
            _ => (
                key(r, "list_items_indentation_mode|list-items-indentation-mode"),
                serde_json::Value::String(key(r, "first-line-only|block")),
            ),
        };
        es.push(entry(&k, &v).unwrap());
        js.push(format!("{}:{}", jstr(&k), v));
    }
    (format!("{{{}}}", js.join(",")), format!("[{}]", es.join(",")))
}

fn skins(r: &mut Rng, out: &mut Out, n: usize) {
    let mut t = Tr::new(&format!("\"default\":{},", skin(&MadSkin::default())));
    for _ in 0..n {
        if r.chance(60) {
            let (j, es) = rentries(r);
            t.ev(format!("\"o\":\"skin_de\",\"e\":{es}"), || or_bad(de::<MadSkin>(&j), skin));
        } else {
            let k = rskin(r);
            t.ev(format!("\"o\":\"skin_rt\",\"x\":{}", skin(&k)), || {
                let j = if r.chance(50) { serde_json::to_string(&k) } else { serde_json::to_string_pretty(&k) }.unwrap();
                let b = de::<MadSkin>(&j).expect("reparsed");
                format!("\"e\":{},\"b\":{}", entries(&j).expect("entries"), skin(&b))
            });
        }
    }
    t.done(out);
}

/// histories of skin wide changes
fn changes(r: &mut Rng, out: &mut Out, n: usize) {
    let mut k = rskin(r);
    let mut t = Tr::new(&format!("\"default\":{},", skin(&k)));
    for _ in 0..n {
        let c = rcolor(r);
        match r.below(8) {
            0 | 1 => t.ev(format!("\"o\":\"set_fg\",\"c\":{}", col(Some(c))), || {
                k.set_fg(c);
                format!("\"r\":{}", skin(&k))
            }),
            2 | 3 => t.ev(format!("\"o\":\"set_bg\",\"c\":{}", col(Some(c))), || {
                k.set_bg(c);
                format!("\"r\":{}", skin(&k))
            }),
            4 => {
                if r.chance(50) {
                    t.ev(format!("\"o\":\"set_headers_fg\",\"c\":{}", col(Some(c))), || {
                        k.set_headers_fg(c);
                        format!("\"r\":{}", skin(&k))
                    })
                } else {
                    t.ev(format!("\"o\":\"set_headers_bg\",\"c\":{}", col(Some(c))), || {
                        k.set_headers_bg(c);
                        format!("\"r\":{}", skin(&k))
                    })
                }
            }
            5 => t.ev(format!("\"o\":\"set_global_bg\",\"c\":{}", col(Some(c))), || {
                k.set_global_bg(c);
                format!("\"r\":{}", skin(&k))
            }),
            6 if r.chance(50) => {
                let w = rweight(r);
                let d = Color::Rgb { r: r.below(256) as u8, g: r.below(256) as u8, b: r.below(256) as u8 };
                t.ev(format!("\"o\":\"blend\",\"c\":{},\"w\":{}", col(Some(d)), (w * 1000.0).round() as i32), || {
                    k.blend_with(d, w);
                    format!("\"r\":{}", skin(&k))
                })
            }
            6 => t.ev("\"o\":\"limit_to_ascii\"".into(), || {
                k.limit_to_ascii();
                format!("\"r\":{}", skin(&k))
            }),
            _ => {
                k = match r.below(10) {
                    0..=2 => MadSkin::no_style(),
                    3 => MadSkin::default(),
                    4 => MadSkin::default_dark(),
                    5 => MadSkin::default_light(),
                    _ => rskin(r),
                };
                if r.chance(50) {
                    for src in ["x", "y", "z"].into_iter().take(r.below(4)) {
                        let mut c = Compound::raw_str(src);
                        c.bold = r.chance(30);
                        k.special_chars.insert(c, rsc(r));
                    }
                }
                let o = if k == MadSkin::no_style() { "no_style" } else { "other" };
                t.ev(format!("\"o\":\"{o}\""), || format!("\"r\":{}", skin(&k)))
            }
        }
    }
    t.done(out);
}

/// histories of a styled char, a compound style and a line style
fn algebra(r: &mut Rng, out: &mut Out, n: usize) {
    let mut c = rsc(r);
    let mut s = rcs(r);
    let mut l = rls(r);
    let st = |c: &StyledChar, s: &CompoundStyle, l: &LineStyle| format!("{{\"c\":{},\"s\":{},\"l\":{}}}", sc(c), cs(s), ls(l));
    let mut t = Tr::new(&format!("\"default\":{},", st(&c, &s, &l)));
    let bcolor = |r: &mut Rng| match r.below(4) {
        0 => Color::AnsiValue(r.range(16, 255) as u8),
        1 => {
            let g = r.below(256) as u8;
            Color::Rgb { r: g, g, b: g }
        }
        2 => Color::AnsiValue(r.range(232, 255) as u8),
        _ => Color::Rgb { r: r.below(256) as u8, g: r.below(256) as u8, b: r.below(256) as u8 },
    };
    for _ in 0..n {
        if t.dead {
            break;
        }
        let col1 = if r.chance(50) { bcolor(r) } else { rcolor(r) };
        let col2 = rcolor(r);
        let at = *r.pick(ATTRS);
        let o = rcs(r);
        let cj = format!("\"c\":{}", col(Some(col1)));
        let ch = *r.pick(MARKS);
        let reps = r.below(4);
        // what's displayed after each operation
        let disp = |c: &StyledChar, s: &CompoundStyle, l: &LineStyle| {
            let mut q = vec![];
            c.queue(&mut q).unwrap();
            let mut qr = vec![];
            c.queue_repeat(&mut qr, reps).unwrap();
            let mut sq = vec![];
            s.queue_str(&mut sq, "xy").unwrap();
            let mut so = vec![];
            s.queue(&mut so, 'z').unwrap();
            format!(
                "\"st\":{},\"n\":{},\"dc\":[{},{}],\"dr\":[{},{}],\"ds\":[{},{}],\"rep\":[{},{},{},{}],\"gc\":[{},{},{},{}],\"sc2\":{},\"cl\":{}",
                st(c, s, l),
                reps,
                shown(&c.to_string()),
                shown(&utf(q)),
                shown(&c.repeated(reps).to_string()),
                shown(&utf(qr)),
                shown(&utf(sq)),
                shown(&format!("{}{}", s.apply_to("x"), s.apply_to('y'))),
                shown(&Fm(|f| s.repeat_char(f, '-', reps)).to_string()),
                shown(&Fm(|f| s.repeat_space(f, reps)).to_string()),
                shown(&Fm(|f| l.repeat_string(f, "ab", reps)).to_string()),
                shown(&Fm(|f| l.repeat_space(f, reps)).to_string()),
                c.get_char() as u32,
                c.nude_char() as u32,
                col(c.get_fg()),
                col(c.get_bg()),
                sc(&s.style_char('k')),
                cleared(s)
            )
        };
        match r.below(18) {
            0 => t.ev(format!("\"o\":\"c.set_fg\",{cj}"), || {
                c.set_fg(col1);
                disp(&c, &s, &l)
            }),
            1 => t.ev(format!("\"o\":\"c.set_bg\",{cj}"), || {
                c.set_bg(col1);
                disp(&c, &s, &l)
            }),
            2 => t.ev(format!("\"o\":\"c.set_char\",\"ch\":{}", ch as u32), || {
                c.set_char(ch);
                disp(&c, &s, &l)
            }),
            3 => t.ev(format!("\"o\":\"c.set_style\",\"x\":{}", cs(&o)), || {
                c.set_compound_style(o.clone());
                disp(&c, &s, &l)
            }),
            4 => {
                let (x, j) = match r.below(3) {
                    0 => (StyledChar::nude(ch), NOSTYLE.to_string()),
                    1 => (StyledChar::from_fg_char(col1, ch), format!("{{\"fg\":{},\"bg\":[],\"at\":[]}}", col(Some(col1)))),
                    _ => (StyledChar::new(o.clone(), ch), cs(&o)),
                };
                t.ev(format!("\"o\":\"c.new\",\"ch\":{},\"x\":{}", ch as u32, j), || {
                    c = x;
                    disp(&c, &s, &l)
                })
            }
            5 | 6 | 7 => {
                let w = rweight(r);
                let which = r.below(3);
                let o = ["c.blend", "s.blend", "l.blend"][which];
                let d = bcolor(r);
                t.ev(format!("\"o\":\"{o}\",\"c\":{},\"w\":{}", col(Some(d)), (w * 1000.0).round() as i32), || {
                    match which {
                        0 => c.blend_with(d, w),
                        1 => s.blend_with(d, w),
                        _ => l.blend_with(d, w),
                    }
                    disp(&c, &s, &l)
                })
            }
            8 => t.ev(format!("\"o\":\"s.over\",\"x\":{}", cs(&o)), || {
                s.overwrite_with(&o);
                disp(&c, &s, &l)
            }),
            9 => t.ev(format!("\"o\":\"s.set_fg\",{cj}"), || {
                s.set_fg(col1);
                disp(&c, &s, &l)
            }),
            10 => t.ev(format!("\"o\":\"s.set_bg\",{cj}"), || {
                s.set_bg(col1);
                disp(&c, &s, &l)
            }),
            11 => t.ev(format!("\"o\":\"s.set_fgbg\",{cj},\"c2\":{}", col(Some(col2))), || {
                s.set_fgbg(col1, col2);
                disp(&c, &s, &l)
            }),
            12 => t.ev(format!("\"o\":\"s.add_attr\",\"a\":\"{}\"", at.sgr()), || {
                s.add_attr(at);
                disp(&c, &s, &l)
            }),
            13 => t.ev(format!("\"o\":\"s.remove_attr\",\"a\":\"{}\"", at.sgr()), || {
                s.remove_attr(at);
                disp(&c, &s, &l)
            }),
            14 => {
                let which = r.below(5);
                let (j, x) = match which {
                    0 => (format!("{{\"fg\":{},\"bg\":[],\"at\":[]}}", col(Some(col1))), CompoundStyle::with_fg(col1)),
                    1 => (format!("{{\"fg\":[],\"bg\":{},\"at\":[]}}", col(Some(col1))), CompoundStyle::with_bg(col1)),
                    2 => (
                        format!("{{\"fg\":{},\"bg\":{},\"at\":[]}}", col(Some(col1)), col(Some(col2))),
                        CompoundStyle::with_fgbg(col1, col2),
                    ),
                    3 => (format!("{{\"fg\":[],\"bg\":[],\"at\":[\"{}\"]}}", at.sgr()), CompoundStyle::with_attr(at)),
                    _ => {
                        let mut k = ContentStyle::new();
                        k.background_color = Some(col1);
                        k.attributes.set(at);
                        (
                            format!("{{\"fg\":[],\"bg\":{},\"at\":[\"{}\"]}}", col(Some(col1)), at.sgr()),
                            CompoundStyle::from(k),
                        )
                    }
                };
                t.ev(format!("\"o\":\"s.new\",\"x\":{j}"), || {
                    s = x;
                    disp(&c, &s, &l)
                })
            }
            15 => t.ev(format!("\"o\":\"l.set_fgbg\",{cj},\"c2\":{}", col(Some(col2))), || {
                l.set_fgbg(col1, col2);
                disp(&c, &s, &l)
            }),
            16 => {
                if r.chance(50) {
                    t.ev(format!("\"o\":\"l.set_fg\",{cj}"), || {
                        l.set_fg(col1);
                        disp(&c, &s, &l)
                    })
                } else {
                    t.ev(format!("\"o\":\"l.set_bg\",{cj}"), || {
                        l.set_bg(col1);
                        disp(&c, &s, &l)
                    })
                }
            }
            _ => {
                if r.chance(50) {
                    t.ev(format!("\"o\":\"l.add_attr\",\"a\":\"{}\"", at.sgr()), || {
                        l.add_attr(at);
                        disp(&c, &s, &l)
                    })
                } else {
                    t.ev(format!("\"o\":\"l.from\",\"x\":{}", cs(&o)), || {
                        l = o.clone().into();
                        disp(&c, &s, &l)
                    })
                }
            }
        }
    }
    t.done(out);
}
const NOSTYLE: &str = "{\"fg\":[],\"bg\":[],\"at\":[]}";

/// an exact number of thousandths
fn rweight(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 | 1 => 0.0,
        2 | 3 => 1.0,
        4 => *r.pick(&[0.5f32, 0.25, 0.75, 0.125]),
        5 => *r.pick(&[1.0f32, 2.0, 10.0, 50.0, 950.0, 990.0, 999.0]) / 1000.0,
        _ => r.below(1001) as f32 / 1000.0,
    }
}
fn skin_blends(r: &mut Rng, out: &mut Out, n: usize) {
    let mut t = Tr::new("");
    for _ in 0..n {
        let mut k = rskin(r);
        let w = rweight(r);
        let d = Color::Rgb { r: r.below(256) as u8, g: r.below(256) as u8, b: r.below(256) as u8 };
        t.ev(format!("\"o\":\"skin_blend\",\"x\":{},\"c\":{},\"w\":{}", skin(&k), col(Some(d)), (w * 1000.0).round() as i32), || {
            k.blend_with(d, w);
            format!("\"r\":{}", skin(&k))
        });
    }
    t.done(out);
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, &format!("{prop}style"));
    let mut ev = 0;
    // each keyword, as such
    if prop == "C20" {
        let mut t = Tr::new("");
        for w in WORDS {
            for s in [w.to_string(), w.to_uppercase()] {
                t.ev(format!("\"o\":\"tok\",\"s\":{}", cps(&s)), || {
                    format!(
                        "\"r\":{},\"col\":{},\"att\":{},\"al\":{}",
                        parse_style_token(&s).map(|t| token(&t)).unwrap_or(BAD.into()),
                        parse_color(&s).map(|c| token(&StyleToken::Color(c))).unwrap_or(BAD.into()),
                        parse_attribute(&s).map(|c| token(&StyleToken::Attribute(c))).unwrap_or(BAD.into()),
                        parse_align(&s).map(|c| token(&StyleToken::Align(c))).unwrap_or(BAD.into()),
                    )
                });
            }
        }
        for (c, _) in NAMED {
            let x = StyleToken::Color(*c);
            t.ev(format!("\"o\":\"wtok\",\"x\":{}", token(&x)), || {
                let s = x.to_string();
                format!("\"w\":{},\"b\":{}", cps(&s), parse_style_token(&s).map(|t| token(&t)).unwrap_or(BAD.into()))
            });
        }
        t.done(out);
    }
    while ev < budget {
        match prop {
            "C20" => match r.below(3) {
                0 => {
                    parsing(&mut r, out, 12);
                    ev += 12;
                }
                1 => {
                    writing(&mut r, out, 12);
                    ev += 12;
                }
                _ => {
                    skins(&mut r, out, 3);
                    ev += 6;
                }
            },
            "C25" => {
                if r.chance(85) {
                    algebra(&mut r, out, 12);
                    ev += 12;
                } else {
                    skin_blends(&mut r, out, 4);
                    ev += 8;
                }
            }
            _ => {
                changes(&mut r, out, 8);
                ev += 8;
            }
        }
    }
}
