//! A small terminal emulator: projects the bytes written by termimad on a
//! grid of styled characters, so that rendering is judged on what is shown.
use std::collections::BTreeMap;
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Sty {
    pub fg: String,
    pub bg: String,
    pub attrs: Vec<String>,
}
impl Sty {
    pub fn key(&self) -> String {
        format!("{}/{}/{}", self.fg, self.bg, self.attrs.join("+"))
    }
}

#[derive(Clone, Debug, Default)]
pub struct Cell {
    /// base char then zero-width ones; empty when never written
    pub chars: Vec<char>,
    pub sty: Sty,
    /// number of times it was written
    pub writes: usize,
    /// right half of a wide char
    pub cont: bool,
}

pub struct Emu {
    pub w: usize,
    pub h: usize,
    pub grid: Vec<Vec<Cell>>,
    pub x: usize,
    pub y: usize,
    pub sty: Sty,
    /// writes outside the grid
    pub outside: usize,
    /// unknown or forbidden sequences (raw control chars...)
    pub odd: Vec<String>,
    /// number of screen/line clears
    pub clears: usize,
    last: Option<(usize, usize)>,
    /// the attributes which turn off others are seen as attributes
    pub flags: bool,
}

fn color256(p: &[String]) -> (String, usize) {
    // p = ["5", n] or ["2", r, g, b]
    match p.first().map(|s| s.as_str()) {
        Some("5") if p.len() >= 2 => (format!("a{}", p[1]), 2),
        Some("2") if p.len() >= 4 => (format!("r{}.{}.{}", p[1], p[2], p[3]), 4),
        _ => ("?".into(), p.len()),
    }
}

impl Emu {
    pub fn new(w: usize, h: usize) -> Self {
        Emu {
            w,
            h,
            grid: vec![vec![Cell::default(); w]; h],
            x: 0,
            y: 0,
            sty: Sty::default(),
            outside: 0,
            odd: vec![],
            clears: 0,
            last: None,
            flags: false,
        }
    }
    /// fill every cell with junk, to see what is not overwritten
    pub fn junk(&mut self) {
        for row in &mut self.grid {
            for c in row {
                c.chars = vec!['\u{2592}'];
            }
        }
    }
    fn put(&mut self, c: char) {
        let w = UnicodeWidthChar::width(c).unwrap_or(0);
        if w == 0 {
            match self.last {
                Some((x, y)) => self.grid[y][x].chars.push(c),
                None => self.odd.push("zero-width first".into()),
            }
            return;
        }
        if self.y >= self.h || self.x + w > self.w {
            self.outside += 1;
            self.x += w;
            self.last = None;
            return;
        }
        let (x, y) = (self.x, self.y);
        // overwriting half of a wide char
        if self.grid[y][x].cont && x > 0 {
            self.grid[y][x - 1].chars = vec![' '];
        }
        for k in 0..w {
            let sty = self.sty.clone();
            let cell = &mut self.grid[y][x + k];
            cell.sty = sty;
            cell.writes += 1;
            cell.cont = k > 0;
            cell.chars = if k == 0 { vec![c] } else { vec![] };
        }
        if x + w < self.w && self.grid[y][x + w].cont {
            self.grid[y][x + w].cont = false;
            self.grid[y][x + w].chars = vec![' '];
        }
        self.last = Some((x, y));
        self.x += w;
    }
    pub fn feed(&mut self, s: &str) {
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if c == '\u{1b}' {
                if i + 1 < cs.len() && cs[i + 1] == '[' {
                    let mut j = i + 2;
                    let mut params = String::new();
                    while j < cs.len() && !('@'..='~').contains(&cs[j]) {
                        params.push(cs[j]);
                        j += 1;
                    }
                    if j < cs.len() {
                        self.csi(&params, cs[j]);
                    }
                    i = j + 1;
                    continue;
                }
                self.odd.push("esc".into());
                i += 1;
                continue;
            }
            match c {
                '\n' => {
                    self.y += 1;
                    self.x = 0;
                    self.last = None;
                }
                '\r' => {
                    self.x = 0;
                    self.last = None;
                }
                c if (c as u32) < 32 || c as u32 == 127 => {
                    self.odd.push(format!("ctl{}", c as u32));
                }
                c => self.put(c),
            }
            i += 1;
        }
    }
    fn csi(&mut self, params: &str, f: char) {
        match f {
            'm' => self.sgr(params),
            'H' => {
                let p: Vec<usize> = params.split(';').map(|s| s.parse().unwrap_or(1)).collect();
                self.y = p.first().copied().unwrap_or(1).saturating_sub(1);
                self.x = p.get(1).copied().unwrap_or(1).saturating_sub(1);
                self.last = None;
            }
            'J' | 'K' => {
                self.clears += 1;
                if f == 'K' {
                    let (x0, x1) = match params {
                        "" | "0" => (self.x.min(self.w), self.w),
                        "1" => (0, (self.x + 1).min(self.w)),
                        _ => (0, self.w),
                    };
                    if self.y < self.h {
                        let sty = self.sty.clone();
                        for c in &mut self.grid[self.y][x0..x1] {
                            c.chars = vec![' '];
                            c.sty = Sty { bg: sty.bg.clone(), ..Sty::default() };
                            c.cont = false;
                        }
                    }
                }
            }
            _ => self.odd.push(format!("csi{}{}", params, f)),
        }
    }
    fn sgr(&mut self, params: &str) {
        let p: Vec<String> = params.split(';').map(|s| s.to_string()).collect();
        let mut i = 0;
        let mut attrs: BTreeMap<String, ()> = self.sty.attrs.iter().map(|a| (a.clone(), ())).collect();
        while i < p.len() {
            match p[i].as_str() {
                n @ ("22" | "23" | "24" | "27" | "29") if self.flags => {
                    attrs.insert(n.to_string(), ());
                }
                "" | "0" => {
                    self.sty = Sty::default();
                    attrs.clear();
                }
                "38" => {
                    let (c, n) = color256(&p[i + 1..]);
                    self.sty.fg = c;
                    i += n;
                }
                "48" => {
                    let (c, n) = color256(&p[i + 1..]);
                    self.sty.bg = c;
                    i += n;
                }
                "39" => self.sty.fg = String::new(),
                "49" => self.sty.bg = String::new(),
                "22" => {
                    attrs.remove("1");
                    attrs.remove("2");
                }
                "23" => {
                    attrs.remove("3");
                }
                "24" => {
                    attrs.remove("4");
                }
                "27" => {
                    attrs.remove("7");
                }
                "29" => {
                    attrs.remove("9");
                }
                n => {
                    let flag = self.flags && matches!(n, "25" | "28" | "54" | "55");
                    let head: u32 = n.split(':').next().unwrap_or("").parse().unwrap_or(999);
                    if (1..=9).contains(&head) || (51..=53).contains(&head) || head == 20 || head == 21 || flag {
                        attrs.insert(n.to_string(), ());
                    } else if (30..=37).contains(&head) {
                        self.sty.fg = format!("a{}", head - 30);
                    } else if (90..=97).contains(&head) {
                        self.sty.fg = format!("a{}", head - 90 + 8);
                    } else if (40..=47).contains(&head) {
                        self.sty.bg = format!("a{}", head - 40);
                    } else if (100..=107).contains(&head) {
                        self.sty.bg = format!("a{}", head - 100 + 8);
                    } else {
                        self.odd.push(format!("sgr{}", n));
                    }
                }
            }
            i += 1;
        }
        self.sty.attrs = attrs.into_keys().collect();
    }
}

/// the style a terminal has after the given escape codes
pub fn style_of(s: &str) -> Sty {
    let mut e = Emu::new(8, 1);
    e.feed(s);
    e.grid[0][0].sty.clone()
}

/// Named styles: projects the emulated styles on short names
#[derive(Default)]
pub struct Names {
    pub map: Vec<(Sty, String)>,
}
impl Names {
    pub fn add(&mut self, name: &str, sample: &str) {
        self.map.push((style_of(sample), name.to_string()));
    }
    pub fn name(&self, s: &Sty) -> String {
        self.map
            .iter()
            .find(|(t, _)| t == s)
            .map(|(_, n)| n.clone())
            .unwrap_or_else(|| format!("?{}", s.key()))
    }
}

/// Observation of a rectangle of the grid: for each row the chars and style
/// names in visual order (zero-width chars included), and how many cells
/// were not written exactly once / written out of the rectangle.
pub struct RectObs {
    pub rows: Vec<Vec<(char, String)>>,
    /// cells of the rectangle written a number of times other than one
    pub bad: usize,
    /// cells out of the rectangle which were written
    pub out: usize,
}
impl Emu {
    pub fn observe(&self, left: usize, top: usize, width: usize, height: usize, names: &Names) -> RectObs {
        let mut o = RectObs { rows: vec![], bad: 0, out: self.outside + self.odd.len() };
        for y in 0..self.h {
            let inside_y = y >= top && y < top + height;
            let mut row = vec![];
            for x in 0..self.w {
                let c = &self.grid[y][x];
                if inside_y && x >= left && x < left + width {
                    if c.writes != 1 {
                        o.bad += 1;
                    }
                    if !c.cont {
                        let n = names.name(&c.sty);
                        for &ch in &c.chars {
                            row.push((ch, n.clone()));
                        }
                    }
                } else if c.writes > 0 {
                    o.out += 1;
                }
            }
            if inside_y {
                o.rows.push(row);
            }
        }
        o
    }
}

/// chars of a line with their style, and number of unexpected sequences
pub fn linear(s: &str) -> (Vec<(char, Sty)>, usize) {
    linear_with(s, false)
}
pub fn linear_with(s: &str, flags: bool) -> (Vec<(char, Sty)>, usize) {
    let mut e = Emu::new(1, 1);
    e.flags = flags;
    let mut v = vec![];
    let mut odd = 0;
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '\u{1b}' && cs.get(i + 1) == Some(&'[') {
            let mut j = i + 2;
            let mut params = String::new();
            while j < cs.len() && !('@'..='~').contains(&cs[j]) {
                params.push(cs[j]);
                j += 1;
            }
            if cs.get(j) == Some(&'m') {
                e.sgr(&params);
            } else {
                odd += 1;
            }
            i = j + 1;
            continue;
        }
        if (c as u32) < 32 || c as u32 == 127 {
            odd += 1;
        }
        v.push((c, e.sty.clone()));
        i += 1;
    }
    if e.sty != Sty::default() {
        // the style leaks after the line
        odd += 1;
    }
    (v, odd + e.odd.len())
}
