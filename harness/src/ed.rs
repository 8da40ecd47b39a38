//! Input field driver: random and bounded-exhaustive histories of operations
//! and events on the real `InputField`, recorded with the whole observable state.
use crate::emu::*;
use crate::out::*;
use crate::rng::Rng;
use crokey::crossterm::event::*;
use termimad::crossterm::style::{Attribute, Color};
use termimad::*;

#[derive(Clone, Debug)]
pub enum Op {
    /// method without argument
    M(&'static str),
    PutChar(char),
    Str(&'static str, String), // insert_str, set_str, replace_selection, is_content
    Focus(bool),
    Pw(bool),
    Area(u16, u16, u16, u16),
    ChArea(u16, u16, u16),
    NewLineOn(&'static str),
    /// via, code, char, mods
    Key(&'static str, &'static str, char, &'static str),
    Click(u16, u16),
    /// kind, x, y, mods, double click, via
    Mouse(&'static str, u16, u16, &'static str, bool, &'static str),
    Resize,
}

fn mods(m: &str) -> KeyModifiers {
    let mut r = KeyModifiers::NONE;
    for p in m.split('-') {
        match p {
            "shift" => r |= KeyModifiers::SHIFT,
            "ctrl" => r |= KeyModifiers::CONTROL,
            "alt" => r |= KeyModifiers::ALT,
            "super" => r |= KeyModifiers::SUPER,
            "hyper" => r |= KeyModifiers::HYPER,
            "meta" => r |= KeyModifiers::META,
            _ => {}
        }
    }
    r
}
/// all sets of modifiers which have no meaning for the field
const MODS: &[&str] = &[
    "ctrl", "alt", "ctrl-shift", "alt-shift", "ctrl-alt", "ctrl-alt-shift", "super", "super-shift", "hyper", "meta",
];
const NEW_LINE_KEYS: &[&str] =
    &["enter", "enter", "alt-enter", "alt-enter", "ctrl-enter", "shift-enter", "ctrl-alt-enter", "ctrl-char", "esc", "tab"];
fn new_line_key(k: &str) -> KeyEvent {
    let (m, k) = k.rsplit_once('-').unwrap_or(("", k));
    KeyEvent::new(keycode(k, 'a'), mods(m))
}
fn keycode(k: &str, c: char) -> KeyCode {
    match k {
        "char" => KeyCode::Char(c),
        "enter" => KeyCode::Enter,
        "backspace" => KeyCode::Backspace,
        "delete" => KeyCode::Delete,
        "home" => KeyCode::Home,
        "end" => KeyCode::End,
        "up" => KeyCode::Up,
        "down" => KeyCode::Down,
        "left" => KeyCode::Left,
        "right" => KeyCode::Right,
        "pageup" => KeyCode::PageUp,
        "pagedown" => KeyCode::PageDown,
        "tab" => KeyCode::Tab,
        "esc" => KeyCode::Esc,
        "insert" => KeyCode::Insert,
        "f5" => KeyCode::F(5),
        _ => unreachable!(),
    }
}
pub const CODES: &[&str] = &[
    "backspace", "delete", "home", "end", "up", "down", "left", "right", "pageup", "pagedown",
];
const OTHER_CODES: &[&str] = &["tab", "esc", "insert", "f5"];
pub const METHODS: &[&str] = &[
    "copy_selection", "cut_selection", "insert_new_line", "clear", "move_up", "move_down", "move_left",
    "move_right", "move_to_start", "move_to_end", "move_to_line_start", "move_to_line_end", "move_word_left",
    "move_word_right", "del_char_below", "del_selection", "del_char_left", "del_word_left", "del_word_right",
    "move_current_line_up", "move_current_line_down", "select_word_around", "page_up", "page_down", "scroll_up",
    "scroll_down", "set_mono_line",
];
fn mouse_kind(k: &str) -> MouseEventKind {
    match k {
        "down" => MouseEventKind::Down(MouseButton::Left),
        "up" => MouseEventKind::Up(MouseButton::Left),
        "drag" => MouseEventKind::Drag(MouseButton::Left),
        "rdown" => MouseEventKind::Down(MouseButton::Right),
        "rup" => MouseEventKind::Up(MouseButton::Right),
        "rdrag" => MouseEventKind::Drag(MouseButton::Right),
        "moved" => MouseEventKind::Moved,
        "wheeldown" => MouseEventKind::ScrollDown,
        "wheelup" => MouseEventKind::ScrollUp,
        _ => unreachable!(),
    }
}

fn jb(b: bool) -> String {
    (if b { "\"true\"" } else { "\"false\"" }).to_string()
}

impl Op {
    fn json(&self) -> String {
        match self {
            Op::M(n) => format!("\"o\":\"{}\"", n),
            Op::PutChar(c) => format!("\"o\":\"put_char\",\"c\":{}", *c as u32),
            Op::Str(n, s) => format!("\"o\":\"{}\",\"s_\":{}", n, cps(s)),
            Op::Focus(b) => format!("\"o\":\"set_focus\",\"b\":{}", b),
            Op::Pw(b) => format!("\"o\":\"set_pw\",\"b\":{}", b),
            Op::Area(x, y, w, h) => format!("\"o\":\"set_area\",\"a\":[{},{},{},{}]", x, y, w, h),
            Op::ChArea(x, y, w) => format!("\"o\":\"change_area\",\"a\":[{},{},{}]", x, y, w),
            Op::NewLineOn(k) => format!("\"o\":\"new_line_on\",\"k\":\"{}\"", k),
            Op::Key(via, k, c, m) => format!(
                "\"o\":\"key\",\"via\":\"{}\",\"k\":\"{}\",\"c\":{},\"m\":\"{}\"",
                via, k, *c as u32, m
            ),
            Op::Click(x, y) => format!("\"o\":\"click\",\"x\":{},\"y\":{}", x, y),
            Op::Mouse(k, x, y, m, d, via) => format!(
                "\"o\":\"mouse\",\"k\":\"{}\",\"x\":{},\"y\":{},\"m\":\"{}\",\"b\":{},\"via\":\"{}\"",
                k, x, y, m, d, via
            ),
            Op::Resize => "\"o\":\"resize\"".to_string(),
        }
    }
    fn apply(&self, f: &mut InputField) -> String {
        match self {
            Op::M(n) => match *n {
                "copy_selection" => format!("\"text\",\"rs\":{}", cps(&f.copy_selection())),
                "cut_selection" => format!("\"text\",\"rs\":{}", cps(&f.cut_selection())),
                "clear" => {
                    f.clear();
                    "\"null\"".into()
                }
                "set_mono_line" => {
                    f.set_mono_line();
                    "\"null\"".into()
                }
                "insert_new_line" => jb(f.insert_new_line()),
                "move_up" => jb(f.move_up()),
                "move_down" => jb(f.move_down()),
                "move_left" => jb(f.move_left()),
                "move_right" => jb(f.move_right()),
                "move_to_start" => jb(f.move_to_start()),
                "move_to_end" => jb(f.move_to_end()),
                "move_to_line_start" => jb(f.move_to_line_start()),
                "move_to_line_end" => jb(f.move_to_line_end()),
                "move_word_left" => jb(f.move_word_left()),
                "move_word_right" => jb(f.move_word_right()),
                "del_char_below" => jb(f.del_char_below()),
                "del_selection" => jb(f.del_selection()),
                "del_char_left" => jb(f.del_char_left()),
                "del_word_left" => jb(f.del_word_left()),
                "del_word_right" => jb(f.del_word_right()),
                "move_current_line_up" => jb(f.move_current_line_up()),
                "move_current_line_down" => jb(f.move_current_line_down()),
                "select_word_around" => jb(f.select_word_around()),
                "page_up" => jb(f.page_up()),
                "page_down" => jb(f.page_down()),
                "scroll_up" => jb(f.scroll_up()),
                "scroll_down" => jb(f.scroll_down()),
                _ => unreachable!("{}", n),
            },
            Op::PutChar(c) => jb(f.put_char(*c)),
            Op::Str(n, s) => match *n {
                "insert_str" => {
                    f.insert_str(s);
                    "\"null\"".into()
                }
                "set_str" => {
                    f.set_str(s);
                    "\"null\"".into()
                }
                "replace_selection" => {
                    f.replace_selection(s);
                    "\"null\"".into()
                }
                "is_content" => jb(f.is_content(s)),
                _ => unreachable!(),
            },
            Op::Focus(b) => {
                f.set_focus(*b);
                "\"null\"".into()
            }
            Op::Pw(b) => {
                f.password_mode = *b;
                "\"null\"".into()
            }
            Op::Area(x, y, w, h) => {
                f.set_area(Area::new(*x, *y, *w, *h));
                "\"null\"".into()
            }
            Op::ChArea(x, y, w) => {
                f.change_area(*x, *y, *w);
                "\"null\"".into()
            }
            Op::NewLineOn(k) => {
                f.new_line_on(new_line_key(k));
                "\"null\"".into()
            }
            Op::Key(_, "two", c, m) => {
                let codes = crokey::OneToThree::Two(KeyCode::Char(*c), KeyCode::Char('z'));
                jb(f.apply_key_combination(crokey::KeyCombination::new(codes, mods(m))))
            }
            Op::Key(via, k, c, m) => {
                let code = keycode(k, *c);
                let m2 = mods(m);
                let mut ke = KeyEvent::new(code, m2);
                if *via == "apply_event_repeat" {
                    ke.kind = KeyEventKind::Repeat;
                }
                jb(match *via {
                    "apply_key_event" => f.apply_key_event(ke),
                    "apply_key_combination" => f.apply_key_combination(ke),
                    "apply_keycode_event" => f.apply_keycode_event(code, m2 == KeyModifiers::SHIFT),
                    "apply_event" | "apply_event_repeat" => f.apply_event(&Event::Key(ke), false),
                    "apply_timed_event" => f.apply_timed_event(&TimedEvent::new(Event::Key(ke))),
                    _ => unreachable!(),
                })
            }
            Op::Click(x, y) => jb(f.apply_click_event(*x, *y)),
            Op::Mouse(k, x, y, m, d, via) => {
                let me = MouseEvent { kind: mouse_kind(k), column: *x, row: *y, modifiers: mods(m) };
                jb(match *via {
                    "apply_mouse_event" => f.apply_mouse_event(me, *d),
                    "apply_event" => f.apply_event(&Event::Mouse(me), *d),
                    _ => {
                        let mut te = TimedEvent::new(Event::Mouse(me));
                        te.double_click = *d;
                        f.apply_timed_event(&te)
                    }
                })
            }
            Op::Resize => jb(f.apply_event(&Event::Resize(40, 10), false)),
        }
    }
}

fn state(f: &InputField) -> String {
    let c = f.content();
    let lines: Vec<String> = c
        .lines()
        .iter()
        .map(|l| format!("[{}]", l.chars.iter().map(|c| (*c as u32).to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    let p = c.cursor_pos();
    let tail = if c.has_selection() {
        let r = c.selection();
        let t = if r.min == p { r.max } else { r.min };
        // the cursor is one of the ends
        format!("[{},{},{}]", t.x, t.y, (r.min == p || r.max == p) as u8)
    } else {
        "[]".to_string()
    };
    let s = f.scroll();
    let a = f.area();
    format!(
        "{{\"L\":[{}],\"p\":[{},{}],\"t\":{},\"sc\":[{},{}],\"f\":{},\"a\":[{},{},{},{}],\"pw\":{}}}",
        lines.join(","),
        p.x,
        p.y,
        tail,
        s.x,
        s.y,
        f.focused(),
        a.left,
        a.top,
        a.width,
        a.height,
        f.password_mode
    )
}

/// other views on the state, which must agree
fn views(f: &InputField) -> String {
    let c = f.content();
    let g = f.get_content();
    let mut other = g.clone();
    other.push('x');
    let mut shorter = g.clone();
    shorter.pop();
    let iter: String = c.into_iter().collect();
    format!(
        "\"v\":{{\"g\":{},\"it\":{},\"ic\":{},\"io\":{},\"is\":{},\"ie\":{},\"ce\":{},\"lc\":{},\"ml\":{},\"mr\":{},\"ws\":{},\"ss\":{},\"l0\":{}}}",
        cps(&g),
        cps(&iter),
        f.is_content(&g),
        f.is_content(&other),
        f.is_content(&shorter),
        f.is_empty(),
        c.is_empty(),
        c.line_count(),
        f.can_move_left(),
        f.can_move_right(),
        c.has_wide_selection(),
        cps(&c.selection_string()),
        c.line(c.line_count()).is_none()
    )
}

pub const GW: usize = 30;
pub const GH: usize = 14;

fn names() -> Names {
    let mut n = Names::default();
    let focused = CompoundStyle::new(Some(Color::AnsiValue(201)), Some(Color::AnsiValue(17)), Attribute::Italic.into());
    let mut cursor = focused.clone();
    cursor.add_attr(Attribute::Reverse);
    let unfocused = CompoundStyle::new(Some(Color::AnsiValue(77)), None, Attribute::Underlined.into());
    n.add("f", &focused.apply_to('X').to_string());
    n.add("c", &cursor.apply_to('X').to_string());
    n.add("u", &unfocused.apply_to('X').to_string());
    n
}

fn render(f: &InputField, names: &Names) -> String {
    let mut buf: Vec<u8> = Vec::new();
    let r = f.display_on(&mut buf);
    let r = match r {
        Ok(Some((x, y))) => format!("[{},{}]", x, y),
        Ok(None) => "[]".to_string(),
        Err(_) => "[-1]".to_string(),
    };
    let a = f.area();
    let mut e = Emu::new(GW.max(a.right() as usize + 6), GH.max(a.bottom() as usize + 6));
    e.feed(&String::from_utf8_lossy(&buf));
    let o = e.observe(a.left as usize, a.top as usize, a.width as usize, a.height as usize, names);
    let rows: Vec<String> = o
        .rows
        .iter()
        .map(|row| {
            let c: Vec<String> = row.iter().map(|(c, _)| (*c as u32).to_string()).collect();
            let s: Vec<String> = row.iter().map(|(_, s)| jstr(s)).collect();
            format!("{{\"c\":[{}],\"s\":[{}]}}", c.join(","), s.join(","))
        })
        .collect();
    // backgrounds of the last column
    let bb: Vec<String> = (a.top as usize..a.bottom() as usize)
        .filter(|_| a.width > 0)
        .map(|y| jstr(&e.grid[y][a.right() as usize - 1].sty.bg))
        .collect();
    format!("\"d\":{{\"rows\":[{}],\"bb\":[{}],\"bad\":{},\"out\":{},\"cur\":{}}}", rows.join(","), bb.join(","), o.bad, o.out, r)
}

pub struct Cfg {
    pub views: bool,
    pub render: bool,
}

pub fn new_field(area: (u16, u16, u16, u16), pw: bool) -> InputField {
    let area = Area::new(area.0, area.1, area.2, area.3);
    let mut f = if area.left % 4 == 1 {
        let mut f = InputField::default();
        f.set_area(area);
        f
    } else {
        InputField::new(area)
    };
    if f.area().left % 2 == 0 {
        // the last styles set are the ones which count
        let bold = CompoundStyle::new(Some(Color::AnsiValue(5)), Some(Color::AnsiValue(6)), Attribute::Bold.into());
        f.set_unfocused_style(bold.clone());
        f.set_normal_style(bold);
    }
    f.set_normal_style(CompoundStyle::new(
        Some(Color::AnsiValue(201)),
        Some(Color::AnsiValue(17)),
        Attribute::Italic.into(),
    ));
    f.set_unfocused_style(CompoundStyle::new(Some(Color::AnsiValue(77)), None, Attribute::Underlined.into()));
    f.password_mode = pw;
    f
}

fn obs(f: &InputField, cfg: &Cfg, nm: &Names) -> String {
    let mut s = format!("\"s\":{}", state(f));
    if cfg.views {
        s.push(',');
        s.push_str(&views(f));
    }
    if cfg.render {
        s.push(',');
        s.push_str(&render(f, nm));
    }
    s
}

/// run a history; `fan` = each op applies on a freshly built state
#[allow(clippy::too_many_arguments)]
fn record(
    out: &mut Out,
    cfg: &Cfg,
    nm: &Names,
    build: &mut dyn FnMut() -> InputField,
    nk: &[&str],
    fan: bool,
    next_op: &mut dyn FnMut(usize, &InputField) -> Option<Op>,
) {
    let mk = |build: &mut dyn FnMut() -> InputField| guard("build", build);
    let Ok(mut f) = mk(build) else {
        out.line("{\"fan\":false,\"nk\":[],\"s0\":{},\"ev\":[{\"o\":\"build\",\"r\":\"panic\"}]}", 1);
        return;
    };
    let o0 = match guard("obs0", || obs(&f, cfg, nm)) {
        Ok(o) => o,
        Err(m) => {
            out.line(&format!("{{\"fan\":false,\"nk\":[],\"s0\":{{}},\"ev\":[{{\"o\":\"observe\",\"r\":\"panic\",\"msg\":{}}}]}}", jstr(&m)), 1);
            return;
        }
    };
    let nks: Vec<String> = nk.iter().map(|k| format!("\"{}\"", k)).collect();
    let mut s = format!("{{\"fan\":{},\"nk\":[{}],\"i\":{{{}}},\"ev\":[", fan, nks.join(","), o0);
    let mut n = 0;
    while let Some(op) = next_op(n, &f) {
        if fan && n > 0 {
            match mk(build) {
                Ok(g) => f = g,
                Err(_) => break,
            }
        }
        if n > 0 {
            s.push(',');
        }
        n += 1;
        let j = op.json();
        let r = guard(&j, || {
            let r = op.apply(&mut f);
            format!("\"r\":{},{}", r, obs(&f, cfg, nm))
        });
        match r {
            Ok(r) => s.push_str(&format!("{{{},{}}}", j, r)),
            Err(m) => {
                s.push_str(&format!("{{{},\"r\":\"panic\",\"msg\":{}}}", j, jstr(&m)));
                if !fan {
                    break;
                }
            }
        }
    }
    s.push_str("]}");
    out.line(&s, n);
}

const ALPHA: &[char] = &[
    'a', 'b', 'Z', '7', '_', ' ', ' ', '-', '.', 'é', '一', '曰', '，', '😀', '\t', '\u{301}', '\u{200b}', '\u{a0}',
    '\u{3000}',
];
/// no zero-width chars (they have no cell of their own)
static NO_ZW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn rchar(r: &mut Rng, rich: bool) -> char {
    if rich && r.chance(35) {
        let c = *r.pick(ALPHA);
        if NO_ZW.load(std::sync::atomic::Ordering::Relaxed) && (c == '\u{301}' || c == '\u{200b}') {
            'x'
        } else {
            c
        }
    } else {
        *r.pick(&['a', 'b', 'c', ' ', 'Q', '1', '_', '-'])
    }
}
pub fn rtext(r: &mut Rng, max: usize, nl: usize, rich: bool) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(nl) {
            s.push('\n');
        } else {
            s.push(rchar(r, rich));
        }
    }
    s
}

/// a text of many lines, or of long lines
pub fn big_text(r: &mut Rng, rich: bool) -> String {
    let (nl, len) = match r.below(3) {
        0 => (r.range(250, 300), 3),
        1 => (r.range(1, 3), 330),
        _ => (r.range(20, 90), 12),
    };
    let mut s = String::new();
    for y in 0..nl {
        if y > 0 {
            s.push('\n');
        }
        for _ in 0..(if len > 300 { r.range(250, len) } else { r.below(len + 1) }) {
            s.push(if r.chance(30) { rchar(r, rich) } else { 'a' });
        }
    }
    s
}

/// weights of op groups: edit methods, strings, moves, selection, keys edit, keys move, shift keys,
/// mouse, area/focus, wheel/scroll, other keys
fn rand_op(r: &mut Rng, w: &[usize; 11], f: &InputField, rich: bool) -> Op {
    let vias = [
        "apply_key_event", "apply_event", "apply_timed_event", "apply_keycode_event", "apply_key_combination",
        "apply_event_repeat",
    ];
    let via = *r.pick(&vias);
    match r.weighted(w) {
        0 => match r.below(9) {
            0 | 1 => Op::PutChar(if r.chance(8) { *r.pick(&['\n', '\r', '\u{8}']) } else { rchar(r, rich) }),
            2 => Op::M("insert_new_line"),
            3 => Op::M("del_char_left"),
            4 => Op::M("del_char_below"),
            5 => Op::M("del_word_left"),
            6 => Op::M("del_word_right"),
            7 => Op::M(if r.chance(50) { "move_current_line_up" } else { "move_current_line_down" }),
            _ => {
                if r.chance(30) {
                    Op::M("clear")
                } else {
                    Op::PutChar(rchar(r, rich))
                }
            }
        },
        1 => {
            let mut s = rtext(r, 8, 20, rich);
            if r.chance(15) {
                s.push('\r');
                s.push('\n');
            }
            if r.chance(5) {
                s.push('\u{8}');
            }
            match r.below(5) {
                0 | 1 => Op::Str("insert_str", s),
                2 => Op::Str("replace_selection", s),
                3 => Op::Str("set_str", if r.chance(30) { f.get_content() } else { s }),
                _ => {
                    let g = f.get_content();
                    let mut t = g.clone();
                    match r.below(4) {
                        0 => {}
                        1 => t.push('\n'),
                        2 => {
                            t.pop();
                        }
                        _ => t = s,
                    }
                    Op::Str("is_content", t)
                }
            }
        }
        2 => Op::M(*r.pick(&[
            "move_up", "move_down", "move_left", "move_right", "move_to_start", "move_to_end", "move_to_line_start",
            "move_to_line_end", "move_word_left", "move_word_right", "page_up", "page_down", "move_word_left",
            "move_word_right",
        ])),
        3 => match r.below(6) {
            0 => Op::M("copy_selection"),
            1 | 2 => Op::M("cut_selection"),
            3 => Op::M("select_word_around"),
            4 => Op::M("del_selection"),
            _ => Op::Str("replace_selection", rtext(r, 5, 15, rich)),
        },
        4 => {
            let k = *r.pick(&["char", "char", "char", "backspace", "delete", "enter"]);
            let m = if k == "char" || k == "enter" {
                if k == "enter" { *r.pick(&["", "alt"]) } else { "" }
            } else {
                *r.pick(&["", "", "", "shift"])
            };
            let mut c = rchar(r, rich);
            let mut m = m;
            if c.is_ascii_uppercase() && r.chance(50) {
                m = "shift";
            }
            if c == '\t' {
                c = ' ';
            }
            let via = if k == "enter" && m == "alt" && via == "apply_keycode_event" { "apply_event" } else { via };
            Op::Key(via, k, c, m)
        }
        5 => Op::Key(via, *r.pick(&CODES[2..]), ' ', ""),
        6 => Op::Key(via, *r.pick(&CODES[2..]), ' ', "shift"),
        7 => {
            let a = f.area();
            let (x, y) = if r.chance(85) {
                (a.left + r.below(a.width as usize) as u16, a.top + r.below(a.height as usize) as u16)
            } else {
                (r.below(GW) as u16, r.below(GH) as u16)
            };
            if r.chance(20) {
                Op::Click(x, y)
            } else {
                let k = *r.pick(&["down", "down", "down", "drag", "drag", "up", "rdown", "rup", "rdrag", "moved"]);
                let m = *r.pick(&["", "", "", "shift", "ctrl", "alt", "ctrl-shift"]);
                let d = r.chance(if k == "up" { 60 } else { 10 });
                let v = *r.pick(&["apply_mouse_event", "apply_event", "apply_timed_event"]);
                Op::Mouse(k, x, y, m, d, v)
            }
        }
        8 => match r.below(8) {
            0 | 1 => Op::Focus(r.chance(70)),
            2 | 3 => {
                let (x, y, w, h) = rarea(r);
                Op::Area(x, y, w, h)
            }
            4 => Op::ChArea(r.below(4) as u16, r.below(3) as u16, r.range(2, 12) as u16),
            5 => Op::Pw(r.chance(30)),
            6 => Op::NewLineOn(*r.pick(NEW_LINE_KEYS)),
            _ => Op::M("set_mono_line"),
        },
        9 => match r.below(4) {
            0 => Op::M("scroll_up"),
            1 => Op::M("scroll_down"),
            _ => {
                let a = f.area();
                Op::Mouse(
                    *r.pick(&["wheeldown", "wheelup"]),
                    a.left + r.below(a.width as usize) as u16,
                    a.top + r.below(a.height as usize) as u16,
                    "",
                    false,
                    *r.pick(&["apply_mouse_event", "apply_event", "apply_timed_event"]),
                )
            }
        },
        _ => match r.below(5) {
            0 => Op::Resize,
            1 => Op::Key(via, *r.pick(OTHER_CODES), ' ', *r.pick(&["", "shift"])),
            2 => Op::Key(
                if via == "apply_keycode_event" { "apply_event" } else { via },
                *r.pick(CODES),
                ' ',
                *r.pick(MODS),
            ),
            3 => Op::Key(
                if via == "apply_keycode_event" { "apply_event" } else { via },
                *r.pick(&["char", "char", "char", "two"]),
                'a',
                *r.pick(MODS),
            ),
            _ => {
                let m = *r.pick(&["", "alt", "shift", "ctrl", "ctrl-alt"]);
                let via = if m.contains('-') && via == "apply_keycode_event" { "apply_event" } else { via };
                Op::Key(via, "enter", ' ', m)
            }
        },
    }
}

fn rarea(r: &mut Rng) -> (u16, u16, u16, u16) {
    let w = match r.below(4) {
        0 => if r.below(4) == 0 { r.range(0, 1) } else { r.range(2, 4) },
        1 => r.range(4, 7),
        _ => r.range(5, 14),
    };
    let h = match r.below(4) {
        0 => if r.below(8) == 0 { 0 } else { 1 },
        1 => r.range(2, 3),
        _ => r.range(1, 8),
    };
    (r.below(5) as u16, r.below(4) as u16, w as u16, h as u16)
}

fn weights(p: &str) -> [usize; 11] {
    match p {
        "C01" => [30, 14, 8, 8, 20, 5, 8, 2, 2, 1, 2],
        "C02" => [20, 12, 10, 10, 14, 8, 12, 8, 3, 2, 1],
        "C03" => [6, 8, 6, 24, 16, 6, 26, 8, 1, 1, 1],
        "C04" => [6, 4, 34, 3, 5, 26, 12, 8, 3, 1, 1],
        "C05" => [12, 8, 18, 6, 14, 16, 8, 5, 10, 8, 1],
        "C06" => [8, 8, 14, 4, 8, 10, 14, 4, 10, 5, 1],
        "C07" => [3, 4, 5, 2, 16, 10, 6, 30, 10, 8, 14],
        _ => [10; 11],
    }
}

pub fn run(seed: u64, prop: &str, thorough: bool, budget: usize, out: &mut Out) {
    let nm = names();
    NO_ZW.store(prop == "C06", std::sync::atomic::Ordering::Relaxed);
    let cfg = Cfg { views: prop == "C02", render: prop == "C06" };
    let mut r = Rng::new(seed, prop);
    let w = weights(prop);
    // 1. bounded exhaustive: every small text x cursor x selection origin x operation
    let maxlen = if thorough { 4 } else { 3 };
    let alpha = ['a', ' ', '\n'];
    let mut texts = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..maxlen {
        let mut nl = vec![];
        for t in &layer {
            for c in alpha {
                let mut u = t.clone();
                u.push(c);
                nl.push(u);
            }
        }
        texts.extend(nl.iter().cloned());
        layer = nl;
    }
    if prop != "C06" && prop != "C05" {
        let mut ops: Vec<Op> = METHODS.iter().map(|m| Op::M(m)).collect();
        ops.push(Op::PutChar('x'));
        ops.push(Op::Str("insert_str", "u\nv".into()));
        ops.push(Op::Str("replace_selection", "u\nv".into()));
        for k in CODES {
            ops.push(Op::Key("apply_event", k, ' ', ""));
            ops.push(Op::Key("apply_event", k, ' ', "shift"));
        }
        ops.push(Op::Key("apply_key_event", "char", 'x', ""));
        ops.push(Op::Key("apply_event", "enter", 'x', ""));
        ops.push(Op::Mouse("down", 3, 1, "", false, "apply_event"));
        ops.push(Op::Mouse("up", 2, 1, "", true, "apply_event"));
        ops.push(Op::Mouse("drag", 3, 2, "", false, "apply_event"));
        for t in &texts {
            let n = t.chars().count();
            for cur in 0..=n {
                for tail in 0..=n + 1 {
                    // tail == n+1 : no selection
                    // in quick mode sample the selection origins
                    if !thorough && n == 3 && tail <= n && !r.chance(40) {
                        continue;
                    }
                    let t2 = t.clone();
                    let mut build = move || {
                        let mut f = new_field((1, 1, 8, 2), false);
                        f.new_line_on(InputField::ENTER);
                        f.set_str(&t2);
                        f.move_to_start();
                        if tail <= n {
                            for _ in 0..tail {
                                f.move_right();
                            }
                            let k = if cur >= tail { KeyCode::Right } else { KeyCode::Left };
                            if cur == tail {
                                // an origin without extent
                                f.apply_keycode_event(KeyCode::F(1), true);
                            }
                            for _ in 0..cur.abs_diff(tail) {
                                f.apply_keycode_event(k, true);
                            }
                        } else {
                            for _ in 0..cur {
                                f.move_right();
                            }
                        }
                        f
                    };
                    let mut next = |i: usize, _f: &InputField| ops.get(i).cloned();
                    record(out, &cfg, &nm, &mut build, &["enter"], true, &mut next);
                }
            }
        }
    }
    // 2. random histories
    let mut events = 0;
    while events < budget {
        // now and then a big text in a maybe big area, maybe far on the screen
        let big = if prop == "C06" { r.below(150) == 0 } else { r.chance(2) };
        let mut area = rarea(&mut r);
        if big {
            if r.chance(50) {
                area.0 += r.below(300) as u16;
                area.1 += r.below(300) as u16;
            }
            match r.below(4) {
                0 => area.2 = r.range(20, 60) as u16,
                1 => {
                    area.2 = r.range(250, 290) as u16;
                    area.3 = area.3.min(2);
                }
                2 => area.3 = r.range(20, 60) as u16,
                _ => {}
            }
        }
        if !big && r.chance(5) {
            // an area higher than most texts: pages longer than what's before
            area.3 = r.range(9, 30) as u16;
        }
        let rich = r.chance(60);
        let pw = r.chance(if prop == "C06" || prop == "C05" { 15 } else { 4 });
        let nk: Vec<&str> = match r.below(5) {
            0 => vec![],
            1 => vec!["enter"],
            2 => vec!["alt-enter"],
            3 => vec![*r.pick(NEW_LINE_KEYS)],
            _ => vec!["enter", "alt-enter"],
        };
        let maxlen = *r.pick(&[3, 8, 20, 40]);
        let nlp = *r.pick(&[0, 10, 25, 45]);
        let text = if big { big_text(&mut r, rich) } else { rtext(&mut r, maxlen, nlp, rich) };
        let focus = r.chance(88);
        let len = if r.chance(20) { 40 } else { r.range(4, 14) };
        let nk2 = nk.clone();
        let mut build = move || {
            let mut f = new_field(area, pw);
            for k in &nk2 {
                f.new_line_on(new_line_key(k));
            }
            f.set_str(&text);
            f.set_focus(focus);
            f
        };
        let mut rr = Rng(r.next());
        let mut next = |i: usize, f: &InputField| if i < len { Some(rand_op(&mut rr, &w, f, rich)) } else { None };
        record(out, &cfg, &nm, &mut build, &nk, false, &mut next);
        events += if big { 4 * len } else { len };
    }
}
