//! List view driver: seeded histories of operations on the real `ListView`,
//! with what is displayed in its area and in a taller probe area.
use crate::emu::*;
use crate::out::*;
use crate::rng::Rng;
use termimad::crossterm::style::Color;
use termimad::minimad::Alignment;
use termimad::*;

#[derive(Clone, Debug)]
struct Row {
    id: usize,
    k: usize,
    g: usize,
    c: Vec<String>,
}
impl Row {
    fn json(&self) -> String {
        let c: Vec<String> = self.c.iter().map(|s| cps(s)).collect();
        format!("{{\"id\":{},\"k\":{},\"g\":{},\"c\":[{}]}}", self.id, self.k, self.g, c.join(","))
    }
}

struct Col {
    title: String,
    mi: usize,
    ma: usize,
    al: &'static str,
    sty: usize,
}

fn pass(f: usize, r: &Row) -> bool {
    match f {
        1 => r.g == 1,
        2 => r.g != 1,
        3 => false,
        4 => r.k % 2 == 0,
        _ => r.id % 3 == 0,
    }
}

#[derive(Clone, Debug)]
enum Op {
    M(&'static str),
    Add(Row),
    N(&'static str, i64),
    Resize(u16, u16, u16, u16),
}
impl Op {
    fn json(&self) -> String {
        match self {
            Op::M(n) => format!("\"o\":\"{}\"", n),
            Op::Add(r) => format!("\"o\":\"add_row\",\"row\":{}", r.json()),
            // TLC counts with 32 bits
            Op::N(n, v) => format!("\"o\":\"{}\",\"n\":{},\"raw\":\"{}\"", n, (*v).clamp(-4_000_000, 4_000_000), v),
            Op::Resize(x, y, w, h) => format!("\"o\":\"resize\",\"a\":[{},{},{},{}]", x, y, w, h),
        }
    }
    fn apply(&self, lv: &mut ListView<Row>) {
        match self {
            Op::Add(r) => lv.add_row(r.clone()),
            Op::M(n) => match *n {
                "clear_rows" => lv.clear_rows(),
                "remove_filter" => lv.remove_filter(),
                "scroll_to_bottom" => lv.scroll_to_bottom(),
                "try_select_next" => lv.try_select_next(false),
                "try_select_prev" => lv.try_select_next(true),
                "select_first_line" => lv.select_first_line(),
                "select_last_line" => lv.select_last_line(),
                "make_selection_visible" => lv.make_selection_visible(),
                "unselect" => lv.unselect(),
                _ => unreachable!(),
            },
            Op::N(n, v) => match *n {
                "sort" => {
                    if *v == 1 {
                        lv.sort(Box::new(|a: &Row, b: &Row| a.k.cmp(&b.k)))
                    } else {
                        lv.sort(Box::new(|a: &Row, b: &Row| b.k.cmp(&a.k)))
                    }
                }
                "set_filter" => {
                    let f = *v as usize;
                    lv.set_filter(Box::new(move |r: &Row| pass(f, r)))
                }
                "try_scroll_lines" => lv.try_scroll_lines(*v as i32),
                "try_scroll_pages" => lv.try_scroll_pages(*v as i32),
                _ => unreachable!(),
            },
            Op::Resize(x, y, w, h) => {
                lv.area = Area::new(*x, *y, *w, *h);
                lv.update_dimensions();
            }
        }
    }
}

const GW: usize = 40;

fn rows_json(o: &RectObs) -> String {
    let rows: Vec<String> = o
        .rows
        .iter()
        .map(|r| {
            let c: Vec<String> = r.iter().map(|(c, _)| (*c as u32).to_string()).collect();
            let s: Vec<String> = r.iter().map(|(_, s)| jstr(s)).collect();
            format!("{{\"c\":[{}],\"s\":[{}]}}", c.join(","), s.join(","))
        })
        .collect();
    format!("[{}]", rows.join(","))
}

fn obs(lv: &mut ListView<Row>, nm: &Names, render: bool, maxrows: usize) -> String {
    let (d, t) = lv.row_counts();
    let sel = lv.get_selection().map_or(0, |r| r.id);
    let bar = lv.scrollbar().map_or("[]".to_string(), |(a, b)| format!("[{},{}]", a, b));
    let bot = lv.do_scroll_show_bottom();
    let mut s = format!(
        "\"d\":{},\"t\":{},\"sel\":{},\"hs\":{},\"bar\":{},\"bot\":{},\"tb\":{}",
        d,
        t,
        sel,
        lv.has_selection(),
        bar,
        bot,
        lv.tbody_height()
    );
    // what is displayed below the current scroll
    let area = lv.area.clone();
    let h = (maxrows + 4) as u16;
    lv.area = Area::new(0, 0, area.width, h);
    let mut buf = Vec::new();
    lv.write_on(&mut buf).unwrap();
    lv.area = area;
    let txt = String::from_utf8(buf).unwrap();
    let mut e = Emu::new(8, h as usize);
    e.feed(&txt);
    // the identifier of a row is written in its first column
    let mut ids: Vec<String> = vec![];
    for y in 2..h as usize {
        let mut n = String::new();
        for x in 0..3 {
            if let Some(c) = e.grid[y][x].chars.first() {
                if c.is_ascii_digit() {
                    n.push(*c);
                }
            }
        }
        if !n.is_empty() {
            ids.push(n.parse::<usize>().unwrap().to_string());
        }
    }
    s.push_str(&format!(",\"tall\":[{}]", ids.join(",")));
    if render {
        let mut buf = Vec::new();
        lv.write_on(&mut buf).unwrap();
        let txt = String::from_utf8(buf).unwrap();
        let a = &lv.area;
        let mut e = Emu::new(a.right() as usize + 6, a.bottom() as usize + 6);
        e.junk();
        e.feed(&txt);
        let o = e.observe(a.left as usize, a.top as usize, a.width as usize, a.height as usize, nm);
        s.push_str(&format!(",\"out\":{},\"rows\":{}", o.out, rows_json(&o)));
    }
    s
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, prop);
    let mut skin = MadSkin::default();
    let mut c0 = CompoundStyle::with_fg(Color::AnsiValue(1));
    c0.add_attr(termimad::crossterm::style::Attribute::Bold);
    let c1 = CompoundStyle::with_fgbg(Color::AnsiValue(2), Color::AnsiValue(17));
    skin.table.compound_style = CompoundStyle::with_fg(Color::AnsiValue(3));
    skin.headers[0].compound_style = CompoundStyle::with_fgbg(Color::AnsiValue(4), Color::AnsiValue(18));
    skin.scrollbar.thumb = StyledChar::from_fg_char(Color::AnsiValue(5), '#');
    skin.scrollbar.track = StyledChar::from_fg_char(Color::AnsiValue(6), '.');
    let styles: &'static [CompoundStyle; 2] = Box::leak(Box::new([c0, c1]));
    let mut nm = Names::default();
    let q = |s: &CompoundStyle| format!("{}", s.apply_to('x')).split('x').next().unwrap().to_string();
    // the style of a text is the one before it
    nm.add("c0", &(q(&styles[0]) + "x"));
    nm.add("c1", &(q(&styles[1]) + "x"));
    nm.add("t", &(q(&skin.table.compound_style) + "x"));
    nm.add("h", &(q(&skin.headers[0].compound_style) + "x"));
    nm.add("th", &(q(skin.scrollbar.thumb.compound_style()) + "x"));
    nm.add("tr", &(q(skin.scrollbar.track.compound_style()) + "x"));
    nm.add("", "x");
    let sel = gray(5);
    for (n, s) in [("c0+", &styles[0]), ("c1+", &styles[1]), ("t+", &skin.table.compound_style)] {
        let mut s = s.clone();
        s.set_bg(sel);
        nm.add(n, &(q(&s) + "x"));
    }
    let render = prop == "C10";
    let letters = ['a', 'b', 'C', '-', ' ', 'é', 'z'];
    while out.events < budget {
        // columns: the first one shows the identifier
        let big = r.below(if render { 60 } else { 100 }) == 0;
        let n = if big && r.chance(50) { r.range(5, 12) } else { r.range(1, 4) };
        let mut cols = vec![Col { title: r.pick(&["Id", "Identifier", "", "a"]).to_string(), mi: 3, ma: r.range(3, 6), al: "l", sty: 0 }];
        for _ in 1..n {
            let lo = if r.chance(10) { 0 } else { 1 };
            let mi = r.range(lo, 4);
            cols.push(Col {
                title: r.pick(&["Id", "b", "b", "Long title", "été"]).to_string(),
                mi,
                ma: mi + r.below(6),
                al: *r.pick(&["l", "c", "r"]),
                sty: r.below(2),
            });
        }
        let minw = cols.iter().map(|c| c.mi).sum::<usize>() + n;
        let rarea = |r: &mut Rng| -> (u16, u16, u16, u16) {
            let w = r.range(minw, (minw + 12).max(GW - 4));
            if big {
                let h = if r.chance(50) { r.range(3, 70) } else { r.range(3, 12) };
                return (r.below(300) as u16, r.below(300) as u16, w as u16, h as u16);
            }
            let h = if r.chance(30) { r.range(3, 5) } else { r.range(3, 12) };
            (r.below(4) as u16, r.below(5) as u16, w as u16, h as u16)
        };
        let columns: Vec<ListViewColumn<Row>> = cols
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let style = &styles[c.sty];
                ListViewColumn::new(
                    &c.title,
                    c.mi,
                    c.ma,
                    Box::new(move |row: &Row| ListViewCell::new(row.c[i].clone(), style)),
                )
                .with_align(match c.al {
                    "l" => Alignment::Left,
                    "r" => Alignment::Right,
                    _ => Alignment::Center,
                })
            })
            .collect();
        let (x, y, w, h) = rarea(&mut r);
        let mut lv = ListView::new(Area::new(x, y, w, h), columns, &skin);
        let cj: Vec<String> = cols
            .iter()
            .map(|c| {
                format!(
                    "{{\"t\":{},\"mi\":{},\"ma\":{},\"al\":\"{}\",\"sty\":\"c{}\"}}",
                    cps(&c.title),
                    c.mi,
                    c.ma,
                    c.al,
                    c.sty
                )
            })
            .collect();
        let mut s = format!("{{\"cols\":[{}],\"a\":[{},{},{},{}],\"ev\":[", cj.join(","), x, y, w, h);
        let many = big && r.chance(70);
        let len = if many { if render { 150 } else { 420 } } else { r.range(5, if render { 25 } else { 60 }) };
        let mut next_id = 1;
        let maxrows = if many { len - 60 } else { r.range(1, 30) };
        let nkeys = r.range(1, 6);
        let mut updated = false;
        let mut nev = 0;
        let sorted = r.chance(60);
        let grow = if many { r.range(65, 92) } else { r.range(10, 60) };
        for k in 0..len {
            let op = if !updated && (render || r.chance(30)) {
                updated = true;
                let (x, y, w, h) = rarea(&mut r);
                Op::Resize(x, y, w, h)
            } else if many && k == 3 && sorted {
                Op::N("sort", r.range(1, 2) as i64)
            } else if next_id <= maxrows && (r.chance(grow) || (k < 10 && r.chance(50))) {
                let id = next_id;
                next_id += 1;
                let mut c = vec![id.to_string()];
                for _ in 1..n {
                    let l = r.below(9);
                    c.push((0..l).map(|_| *r.pick(&letters)).collect());
                }
                Op::Add(Row { id, k: r.range(1, nkeys), g: r.range(1, 3), c })
            } else {
                match r.below(30) {
                    0 => Op::N("sort", r.range(1, 2) as i64),
                    1..=2 => Op::N("set_filter", r.range(1, 5) as i64),
                    3 => Op::M("remove_filter"),
                    4 if r.chance(30) => Op::M("clear_rows"),
                    5 => Op::M("scroll_to_bottom"),
                    6..=9 => Op::N("try_scroll_lines", *r.pick(&[-1, -1, 1, 1, 2, -2, 3, -5, 7, 0, 1000, -1000, 40_000, -70_000, i32::MAX as i64, i32::MIN as i64])),
                    10..=11 => Op::N("try_scroll_pages", *r.pick(&[-1, 1, -1, 1, 2, -2, 0, 70_000, -40_000, i32::MAX as i64, i32::MIN as i64])),
                    12..=18 => Op::M("try_select_next"),
                    19..=23 => Op::M("try_select_prev"),
                    24 => Op::M("select_first_line"),
                    25 => Op::M("select_last_line"),
                    26 => Op::M("make_selection_visible"),
                    27 => Op::M("unselect"),
                    _ => {
                        let (x, y, w, h) = rarea(&mut r);
                        Op::Resize(x, y, w, h)
                    }
                }
            };
            if nev > 0 {
                s.push(',');
            }
            nev += 1;
            let j = op.json();
            let res = guard(&j, || {
                op.apply(&mut lv);
                obs(&mut lv, &nm, render, next_id - 1)
            });
            match res {
                Ok(o) => s.push_str(&format!("{{{},\"p\":false,{}}}", j, o)),
                Err(m) => {
                    s.push_str(&format!("{{{},\"p\":true,\"msg\":{}}}", j, jstr(&m)));
                    break;
                }
            }
        }
        if r.chance(20) {
            if nev > 0 {
                s.push(',');
            }
            nev += 1;
            // the list in an area too small for it: nothing panics
            let (x, y, w, h) = (r.below(3) as u16, r.below(3) as u16, r.range(0, 3) as u16, r.range(0, 3) as u16);
            let j = format!("\"o\":\"tiny\",\"a\":[{},{},{},{}]", x, y, w, h);
            let res = guard(&j, || {
                let mut buf = Vec::new();
                lv.area = Area::new(x, y, w, h);
                lv.write_on(&mut buf).unwrap();
                lv.update_dimensions();
                for k in 0..8 {
                    match k {
                        0 => lv.try_select_next(true),
                        1 => lv.try_select_next(false),
                        2 => lv.scroll_to_bottom(),
                        3 => lv.try_scroll_lines(-1),
                        4 => lv.try_scroll_pages(2),
                        5 => lv.select_last_line(),
                        6 => lv.select_first_line(),
                        _ => lv.make_selection_visible(),
                    }
                    let _ = (lv.scrollbar(), lv.tbody_height(), lv.do_scroll_show_bottom());
                    lv.write_on(&mut buf).unwrap();
                }
            });
            match res {
                Ok(()) => s.push_str(&format!("{{{},\"p\":false}}", j)),
                Err(m) => s.push_str(&format!("{{{},\"p\":true,\"msg\":{}}}", j, jstr(&m))),
            }
        }
        s.push_str("]}");
        out.line(&s, nev);
    }
}
