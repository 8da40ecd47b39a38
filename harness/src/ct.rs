//! Histories of operations on the real `InputFieldContent`, without field around.
//!
//! The type can't be named out of the crate (it's obtained by cloning the content of
//! a field), hence the macros.
use crate::ed::{big_text, rtext};
use crate::out::*;
use crate::rng::Rng;
use termimad::*;

#[derive(Clone)]
enum Op {
    M(&'static str),
    C(&'static str, char),
    S(&'static str, String),
    P(&'static str, usize, usize),
    N(&'static str, usize),
}
const METHODS: &[&str] = &[
    "insert_new_line", "clear", "move_up", "move_down", "move_left", "move_right", "move_to_start", "move_to_end",
    "move_to_line_start", "move_to_line_end", "move_word_left", "move_word_right", "del_char_below", "del_selection",
    "del_char_left", "del_word_left", "del_word_right", "move_current_line_up", "move_current_line_down",
    "select_word_around", "make_selection", "unselect",
];
fn jb(b: bool) -> String {
    (if b { "\"true\"" } else { "\"false\"" }).to_string()
}
const NULL: &str = "\"null\"";
impl Op {
    fn json(&self) -> String {
        match self {
            Op::M(n) => format!("\"o\":\"{}\"", n),
            Op::C(n, c) => format!("\"o\":\"{}\",\"c\":{}", n, *c as u32),
            Op::S(n, s) => format!("\"o\":\"{}\",\"s_\":{}", n, cps(s)),
            Op::P(n, x, y) => format!("\"o\":\"{}\",\"q\":[{},{}]", n, x, y),
            Op::N(n, k) => format!("\"o\":\"{}\",\"n\":{}", n, k),
        }
    }
}
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
macro_rules! field_content {
    ($s:expr) => {{
        let mut f = InputField::new(Area::new(0, 0, 10, 5));
        f.set_str($s);
        f.content().clone()
    }};
}
macro_rules! apply {
    ($op:expr, $f:expr) => {{
        let f = $f;

    let null = NULL.to_string();
    match $op {
        Op::M(n) => match *n {
            "insert_new_line" => {
                f.insert_new_line();
                null
            }
            "clear" => {
                f.clear();
                null
            }
            "make_selection" => {
                f.make_selection();
                null
            }
            "unselect" => {
                f.unselect();
                null
            }
            "move_up" => jb(f.move_up()),
            "move_down" => jb(f.move_down()),
            "move_left" => jb(f.move_left()),
            "move_right" => jb(f.move_right()),
            "move_to_start" => jb(f.move_to_start()),
            "move_to_end" => jb(f.move_to_end()),
            "move_to_line_start" => jb(f.move_to_line_start()),
            "move_to_line_end" => jb(f.move_to_line_end()),
            "move_word_left" => jb(f.move_word_left()),
            "move_word_right" => jb(f.move_word_right()),
            "del_char_below" => jb(f.del_char_below()),
            "del_selection" => jb(f.del_selection()),
            "del_char_left" => jb(f.del_char_left()),
            "del_word_left" => jb(f.del_word_left()),
            "del_word_right" => jb(f.del_word_right()),
            "move_current_line_up" => jb(f.move_current_line_up()),
            "move_current_line_down" => jb(f.move_current_line_down()),
            "select_word_around" => jb(f.select_word_around()),
            _ => unreachable!(),
        },
        Op::C(n, c) => {
            if *n == "push_char" {
                f.push_char(*c)
            } else {
                f.insert_char(*c)
            }
            null
        }
        Op::S(n, s) => match *n {
            "insert_str" => {
                f.insert_str(s);
                null
            }
            "set_str" => {
                f.set_str(s);
                null
            }
            "from" => {
                *f = field_content!(s);
                null
            }
            _ => jb(f.is_str(s)),
        },
        Op::P(n, x, y) => match *n {
            "set_cursor_pos" => {
                f.set_cursor_pos(pos!(f, *x, *y));
                null
            }
            "set_selection_tail" => {
                f.set_selection_tail(pos!(f, *x, *y));
                null
            }
            "swap_lines" => jb(f.swap_lines(*x, *y)),
            _ => {
                let p = f.make_valid_pos(pos!(f, *x, *y));
                format!("\"pos\",\"rp\":[{},{}]", p.x, p.y)
            }
        },
        Op::N(n, k) => {
            if *n == "move_lines_up" {
                jb(f.move_lines_up(*k))
            } else {
                jb(f.move_lines_down(*k))
            }
        }
    }
    }};
}
macro_rules! obs {
    ($c:expr) => {{
        let c = $c;
    let lines: Vec<String> = c.lines().iter().map(|l| cps(&l.chars.iter().collect::<String>())).collect();
    let p = c.cursor_pos();
    let r = c.selection();
    let tail = if c.has_selection() {
        let t = if r.min == p { r.max } else { r.min };
        format!("[{},{},{}]", t.x, t.y, (r.min == p || r.max == p) as u8)
    } else {
        "[]".to_string()
    };
    let e = c.end();
    let iter: String = c.into_iter().collect();
    let cl = c.current_line();
    let idx: Vec<String> =
        (0..6).map(|k| cl.col_to_char_idx(k).map(|i| i as i64).unwrap_or(-1).to_string()).collect();
    let cols: Vec<String> = (0..=cl.chars.len()).map(|k| cl.char_idx_to_col(k).to_string()).collect();
    let g = c.to_string();
    let mut other = g.clone();
    other.push('x');
    let mut shorter = g.clone();
    shorter.pop();
    let inr: Vec<String> = (0..=c.line_count())
        .flat_map(|y| (0..5).filter(move |x| if (x + y) % 2 == 0 { r.contains(*x, y) } else { r.contains_pos(pos!(c, *x, y)) }).map(move |x| format!("[{},{}]", x, y)))
        .collect();
    format!(
        "\"s\":{{\"L\":[{}],\"p\":[{},{}],\"t\":{}}},\"v\":{{\"g\":{},\"it\":{},\"ic\":{},\"io\":{},\"is\":{},\"ce\":{},\"lc\":{},\"l0\":{},\"ls\":{},\"ml\":{},\"mr\":{},\"ws\":{},\"ss\":{},\"rg\":[{},{},{},{}],\"e\":[{},{}],\"w\":{},\"idx\":[{}],\"cols\":[{}],\"inr\":[{}]}}",
        lines.join(","), p.x, p.y, tail, cps(&g), cps(&iter), c.is_str(&g), c.is_str(&other), c.is_str(&shorter),
        c.is_empty(), c.line_count(), c.line(c.line_count()).is_none(),
        cps(&c.line_saturating(c.line_count()).to_string()), c.can_move_left(), c.can_move_right(),
        c.has_wide_selection(), cps(&c.selection_string()), r.min.x, r.min.y, r.max.x, r.max.y, e.x, e.y, cl.width(),
        idx.join(","), cols.join(","), inr.join(",")
    )
    }};
}

fn record(out: &mut Out, text: &str, fan: bool, next: &mut dyn FnMut(usize, &str) -> Option<Op>, pre: &[Op]) {
    let build = || {
        let mut c = field_content!(text);
        for o in pre {
            apply!(o, &mut c);
        }
        c
    };
    let i = guard("content", || {
        let c = build();
        let o = obs!(&c);
        (c, o)
    });
    let (mut c, o) = match i {
        Ok(i) => i,
        Err(m) => {
            out.line(&format!("{{\"fan\":false,\"ev\":[{{\"o\":\"observe\",\"r\":\"panic\",\"msg\":{}}}]}}", jstr(&m)), 1);
            return;
        }
    };
    let mut s = format!("{{\"fan\":{},\"i\":{{{}}},\"ev\":[", fan, o);
    let mut n = 0;
    while let Some(op) = next(n, &c.to_string()) {
        if fan {
            c = build();
        }
        if n > 0 {
            s.push(',');
        }
        n += 1;
        let j = op.json();
        match guard(&j, || {
            let r = apply!(&op, &mut c);
            format!("\"r\":{},{}", r, obs!(&c))
        }) {
            Ok(r) => s.push_str(&format!("{{{},{}}}", j, r)),
            Err(m) => {
                s.push_str(&format!("{{{},\"r\":\"panic\",\"msg\":{}}}", j, jstr(&m)));
                if !fan {
                    break;
                }
            }
        }
    }
    s.push_str("]}");
    out.line(&s, n);
}

fn rand_op(r: &mut Rng, prop: &str, c: &str) -> Op {
    let nl = c.split('\n').count();
    let nx = if c.len() > 200 { *r.pick(&[9, 9, 340]) } else { 9 };
    let w: [usize; 8] = match prop {
        "C01" => [40, 8, 10, 10, 4, 14, 6, 4],
        "C03" => [20, 6, 22, 30, 4, 8, 4, 4],
        "C04" => [45, 4, 18, 6, 14, 6, 4, 3],
        _ => [22, 10, 16, 16, 8, 12, 6, 8],
    };
    let rc = |r: &mut Rng| *r.pick(&['a', 'b', ' ', '_', '7', 'é', '一', '\t', '\n', '\n', '\r', '\u{8}', '😀']);
    match r.weighted(&w) {
        0 => {
            let m = *r.pick(METHODS);
            let m = if m == "clear" && r.chance(70) { "move_left" } else { m };
            Op::M(m)
        }
        1 => Op::C("push_char", rc(r)),
        2 => Op::P("set_cursor_pos", r.below(nx), r.below(nl + 2)),
        3 => {
            if r.chance(75) {
                Op::P("set_selection_tail", r.below(nx), r.below(nl + 2))
            } else {
                Op::M(*r.pick(&["make_selection", "unselect", "select_word_around", "del_selection"]))
            }
        }
        4 => Op::N(*r.pick(&["move_lines_up", "move_lines_down"]), if c.len() > 200 && r.chance(30) { r.range(0, 300) } else { r.range(0, 4) }),
        5 => Op::C("insert_char", rc(r)),
        6 => Op::P("swap_lines", r.below(nl + 1), r.below(nl + 1)),
        _ => match r.below(5) {
            0 => Op::P("make_valid_pos", r.below(nx), r.below(nl + 2)),
            1 => {
                let g = c.to_string();
                let t = rtext(r, 3, 40, false);
                Op::S("is_str", if r.chance(50) { g } else { t })
            }
            2 => Op::S("set_str", if r.chance(30) { c.to_string() } else { rtext(r, 12, 25, true) }),
            3 => Op::S("from", rtext(r, 12, 25, true)),
            _ => Op::S("insert_str", rtext(r, 5, 25, true)),
        },
    }
}

pub fn run(seed: u64, prop: &str, thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, &format!("{prop}content"));
    // bounded exhaustive: all small texts, cursors and tails
    let maxlen = if thorough { 4 } else { 3 };
    let alpha = ['a', ' ', '\n'];
    let mut layer = vec![String::new()];
    let mut texts = layer.clone();
    for _ in 0..maxlen {
        layer = layer.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect();
        texts.extend(layer.iter().cloned());
    }
    let mut ops: Vec<Op> = METHODS.iter().map(|m| Op::M(m)).collect();
    ops.push(Op::C("insert_char", 'x'));
    ops.push(Op::C("push_char", '\n'));
    ops.push(Op::P("swap_lines", 0, 1));
    ops.push(Op::P("swap_lines", 2, 0));
    ops.push(Op::N("move_lines_down", 2));
    ops.push(Op::N("move_lines_up", 2));
    for y in 0..3 {
        for x in 0..3 {
            ops.push(Op::P("set_selection_tail", x, y));
        }
    }
    for t in &texts {
        let lines: Vec<usize> = t.split('\n').map(|l| l.chars().count()).collect();
        let pos: Vec<(usize, usize)> =
            lines.iter().enumerate().flat_map(|(y, n)| (0..=*n).map(move |x| (x, y))).collect();
        for &(x, y) in &pos {
            for k in 0..=pos.len() {
                if maxlen == 3 && t.len() == 3 && !r.chance(30) {
                    continue;
                }
                let mut pre = vec![Op::P("set_cursor_pos", x, y)];
                if k < pos.len() {
                    pre.push(Op::P("set_selection_tail", pos[k].0, pos[k].1));
                }
                record(out, t, true, &mut |i, _| ops.get(i).cloned(), &pre);
            }
        }
    }
    let mut ev = 0;
    while ev < budget {
        let ml = *r.pick(&[3, 8, 20]);
        let nlp = *r.pick(&[0, 20, 40]);
        let big = r.chance(2);
        let text = if big { big_text(&mut r, true) } else { rtext(&mut r, ml, nlp, true) };
        let len = r.range(5, 20);
        let mut rr = Rng(r.next());
        record(out, &text, false, &mut |i, c| if i < len { Some(rand_op(&mut rr, prop, c)) } else { None }, &[]);
        ev += if big { 4 * len } else { len };
    }
}
