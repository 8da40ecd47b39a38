//! Inline templates driver (C26): what the macros write and print.
use crate::mdgen;
use crate::out::*;
use crate::rd::{shown, skin_json, Styles};
use crate::rng::Rng;
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use termimad::minimad::InlineTemplate;
use termimad::*;

macro_rules! with_templates {
    ($go:ident) => {
        $go! {
            "$0", "**$0**", "a $0 b", "*$1* and **$0**", "`$0`", "~~$2~~ $0$1", "no hole", "**$0 formula:** *$1*",
            "$0$0$0", "x**$0 *$1* `$2`** ~~*$3*~~", "[**$0**] ", "[$0] ", "*a*$0*b*", "`$0 ** $1`", "$3 $9 $5",
            "\\*$0\\*", "**b**$0`c`$1", "$ 0 $0", "日本 **$1** é $0", "*$0~~$1~~$2*", "**a *$0* b** $0", "$9$8$7",
            "1$0", "$00", "~~**`$0`**~~", " $0 ", "`code` $1 **bold $1** *it $1* ~~s $1~~"
        }
    };
}
macro_rules! texts {
    ($($md:literal),*) => { &[$($md),*] };
}
pub const TEMPLATES: &[&str] = with_templates!(texts);

/// write with the macro
fn write(b: &mut Vec<u8>, sk: &MadSkin, idx: usize, a: &[String]) {
    macro_rules! go {
        ($($md:literal),*) => {
            let mut k = 0;
            $(
                if k == idx {
                    match a.len() {
                        0 => mad_write_inline!(b, sk, $md).unwrap(),
                        1 => mad_write_inline!(b, sk, $md, a[0]).unwrap(),
                        2 => mad_write_inline!(b, sk, $md, a[0], a[1]).unwrap(),
                        3 => mad_write_inline!(b, sk, $md, a[0], a[1], &a[2]).unwrap(),
                        4 => mad_write_inline!(b, sk, $md, a[0], a[1], a[2], a[3].as_str()).unwrap(),
                        _ => mad_write_inline!(b, sk, $md, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10],).unwrap(),
                    }
                }
                k += 1;
            )*
            let _ = k;
        };
    }
    with_templates!(go);
}
fn print(sk: &MadSkin, idx: usize, a: &[String]) {
    macro_rules! go {
        ($($md:literal),*) => {
            let mut k = 0;
            $(
                if k == idx {
                    match a.len() {
                        0 => mad_print_inline!(sk, $md),
                        1 => mad_print_inline!(sk, $md, a[0]),
                        2 => mad_print_inline!(sk, $md, a[0], &a[1]),
                        3 => mad_print_inline!(sk, $md, a[0], a[1], a[2]),
                        4 => mad_print_inline!(sk, $md, a[0], a[1], a[2], a[3]),
                        _ => mad_print_inline!(sk, $md, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]),
                    }
                }
                k += 1;
            )*
            let _ = k;
        };
    }
    with_templates!(go);
}

fn skin_of(seed: u64) -> MadSkin {
    let mut r = Rng::new(seed, "tpskin");
    let k = r.below(6);
    mdgen::skin(&mut r, k)
}
fn arg(r: &mut Rng) -> String {
    let alpha: &[char] = match r.below(5) {
        0 => &['a', 'b', ' '],
        1 => &['*', '`', '~', 'x'],
        2 => &['$', '0', '1', '9', '*'],
        3 => &['é', '日', '😀', '\u{301}', '\\'],
        _ => &['a', '*', '`', '~', '$', '0', ' ', '|', '>', '#', '-', '[', '日', '\\'],
    };
    let n = if r.chance(10) {
        0
    } else if r.chance(1) {
        r.range(200, 400)
    } else {
        r.below(7)
    };
    (0..n).map(|_| *r.pick(alpha)).collect()
}
fn args(r: &mut Rng) -> Vec<String> {
    let n = if r.chance(8) { 11 } else { r.below(5) };
    (0..n).map(|_| arg(r)).collect()
}
/// a template: styled parts, apart from each other
fn template(r: &mut Rng) -> String {
    fn plain(r: &mut Rng, code: bool) -> String {
        let n = r.range(1, 5);
        let mut s = String::new();
        let mut dollar = false;
        for _ in 0..n {
            let p = match r.below(6) {
                0 | 1 => format!("${}", if r.chance(80) { r.below(4) } else { r.below(10) }),
                2 if code => r.pick(&["**", "*", "~~", "~", "*`"]).replace('`', "").to_string(),
                2 if !code => r.pick(&["\\*", "\\`", "\\~", "-"]).to_string(),
                3 => r.pick(&["a", "bc", "日本", "é", "0", "12"]).to_string(),
                4 => " ".to_string(),
                _ => r.pick(&["x", "$", "|", "# ", "> "]).to_string(),
            };
            if dollar && p.starts_with(['$', '\\']) {
                continue;
            }
            dollar = p == "$";
            s.push_str(&p);
        }
        if s.ends_with('$') {
            s.push('z');
        }
        // a word around so that marks are always told apart
        if r.chance(50) || s.starts_with(['*', '~', '\\']) {
            s.insert(0, 'w');
        }
        if r.chance(30) || s.ends_with(['*', '~']) {
            s.push('w');
        }
        s
    }
    let mut s = String::new();
    let n = if r.chance(2) { r.range(20, 60) } else { r.range(1, 5) };
    for i in 0..n {
        if i > 0 || r.chance(50) {
            s.push_str(&plain(r, false));
        }
        let (a, b) = (plain(r, false), plain(r, false));
        s.push_str(&match r.below(8) {
            0 => format!("**{a}**"),
            1 => format!("*{a}*"),
            2 => format!("~~{a}~~"),
            3 => format!("`{}`", plain(r, true)),
            4 => format!("**{a}*{b}*w**"),
            5 => format!("*{a}~~{b}~~w*"),
            6 => format!("~~{a}`{}`w~~", plain(r, true)),
            _ => a,
        });
    }
    s
}

fn ev(o: &str, t: &str, a: &[String], shown: Result<String, String>) -> String {
    let v: Vec<String> = a.iter().map(|x| cps(x)).collect();
    let head = format!("\"o\":\"{o}\",\"t\":{},\"a\":[{}]", cps(t), v.join(","));
    match shown {
        Ok(s) => format!("{{{head},{s},\"p\":0}}"),
        Err(m) => format!("{{{head},\"msg\":{},\"p\":1}}", jstr(&m)),
    }
}

/// child process: prints templates
pub fn child(seed: u64, path: &str) {
    let v: Vec<(usize, Vec<String>)> = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let sk = skin_of(seed);
    for (i, a) in &v {
        print!("\u{2}");
        print(&sk, *i, a);
    }
}

/// run this program as a child without terminal
pub fn spawn(args: &[&str], input: &str) -> std::io::Result<(bool, String)> {
    let mut c = Command::new(std::env::current_exe()?);
    c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env("PATH", "/nonexistent");
    unsafe {
        c.pre_exec(|| {
            libc::setsid();
            Ok(())
        });
    }
    let mut p = c.spawn()?;
    let mut stdin = p.stdin.take().unwrap();
    let input = input.to_string();
    let h = std::thread::spawn(move || {
        let _ = stdin.write_all(input.as_bytes());
    });
    let o = p.wait_with_output()?;
    let _ = h.join();
    Ok((o.status.success(), String::from_utf8_lossy(&o.stdout).to_string()))
}

pub fn run(seed: u64, _prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, "templates");
    let tmp = format!("{}.child.{}", out.path, std::process::id());
    let mut n = 0;
    while n < budget {
        let sseed = r.below(1 << 20) as u64;
        let sk = skin_of(sseed);
        let mut st = Styles::default();
        let mut evs = vec![];
        if r.chance(20) {
            // printed ones, in a child process
            let v: Vec<(usize, Vec<String>)> = (0..30).map(|_| (r.below(TEMPLATES.len()), args(&mut r))).collect();
            std::fs::write(&tmp, serde_json::to_string(&v).unwrap()).unwrap();
            beat("print child");
            let (ok, s) = spawn(&["print-child", "--seed", &sseed.to_string(), "--out", &tmp], "").unwrap();
            let parts: Vec<&str> = s.split('\u{2}').skip(1).collect();
            for (k, (i, a)) in v.iter().enumerate() {
                let x = match parts.get(k) {
                    Some(s) if ok || k + 1 < parts.len() => Ok(shown(s, &mut st)),
                    _ => Err("child ended".to_string()),
                };
                let dead = x.is_err();
                evs.push(ev("print", TEMPLATES[*i], a, x));
                if dead {
                    break;
                }
            }
        } else {
            for _ in 0..12 {
                let a = args(&mut r);
                if r.chance(40) {
                    let i = r.below(TEMPLATES.len());
                    let x = guard(&format!("write {i} {a:?}"), || {
                        let mut b = vec![];
                        write(&mut b, &sk, i, &a);
                        shown(&String::from_utf8_lossy(&b), &mut st)
                    });
                    evs.push(ev("write", TEMPLATES[i], &a, x));
                } else {
                    let t = template(&mut r);
                    let direct = r.chance(50);
                    let x = guard(&format!("template {t:?} {a:?}"), || {
                        let it = InlineTemplate::from(&*t);
                        let mut c = it.raw_composite();
                        for (k, v) in a.iter().enumerate() {
                            it.apply(&mut c, k, v);
                        }
                        if direct {
                            shown(&FmtInline { skin: &sk, composite: FmtComposite::from(c, &sk) }.to_string(), &mut st)
                        } else {
                            let mut b = vec![];
                            sk.write_composite(&mut b, c).unwrap();
                            shown(&String::from_utf8_lossy(&b), &mut st)
                        }
                    });
                    evs.push(ev("gen", &t, &a, x));
                }
            }
        }
        n += evs.len();
        out.line(&format!("{{\"sk\":{},\"sty\":{},\"ev\":[{}]}}", skin_json(&sk), st.json(), evs.join(",")), evs.len());
    }
    let _ = std::fs::remove_file(&tmp);
}
