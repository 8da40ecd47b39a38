//! Questions driver (C24): children asking questions, lines typed to them.
use crate::mdgen;
use crate::out::*;
use crate::rd::{shown, skin_json, Styles};
use crate::rng::Rng;
use crate::tp::spawn;
use termimad::*;

type Q = (i64, Option<String>, Vec<(String, String)>, Option<String>);

/// questions asked with the macro; the last one is only asked after the
/// answer "b" to the one before
fn macro_q(m: usize) -> Q {
    let s = |x: &str| x.to_string();
    let v = |a: &[(&str, &str)]| a.iter().map(|(k, m)| (s(k), s(m))).collect();
    let m2 = m as i64;
    match m {
        0 => (m2, Some(s("Do you *want* it ?")), v(&[("y", "**Y**es"), ("n", "**N**o")]), Some(s("n"))),
        3 => (m2, Some(s("Which one ?")), v(&[("1", "*first*"), ("2", "second")]), Some(s("first"))),
        1 => (m2, Some(s("What do I serve you ?")), v(&[("b", "**B**eer"), ("w", "**W**ine"), ("12", "a `dozen`"), ("y", "why")]), None),
        _ => (
            m2,
            Some(s("Really ? We have wine and orange juice too")),
            v(&[("oj", "**o**range **j**uice"), ("w", "ok for some wine"), ("b", "I said **beer**"), ("2", "Make it **2** beer glasses!")]),
            Some(s("2")),
        ),
    }
}
fn mark() {
    print!("\u{2}");
}
fn with_macro(sk: &MadSkin, m: i64, res: &mut Vec<Option<String>>) {
    if m == 0 {
        let k = ask!(sk, "Do you *want* it ?", ('n') {
            ('y', "**Y**es") => { "y" }
            ('n', "**N**o") => { "n" }
        });
        res.push(Some(k.to_string()));
    } else if m == 3 {
        // refused before it's asked
        let k = ask!(sk, "Which one ?", ("first") {
            (1, "*first*") => { "1" }
            ('2', "second") => { "2" }
        });
        res.push(Some(k.to_string()));
    } else {
        let mut outer = None;
        let inner = ask!(sk, "What do I serve you ?", {
            ('b', "**B**eer") => {
                res.push(Some("b".into()));
                outer = Some(());
                mark();
                Some(ask!(sk, "Really ? We have wine and orange juice too", (2) {
                    ("oj", "**o**range **j**uice") => { "oj" }
                    ('w', "ok for some wine") => { "w" }
                    ('b', "I said **beer**") => { "b" }
                    (2, "Make it **2** beer glasses!") => { "2" }
                }))
            }
            ("w", "**W**ine") => { res.push(Some("w".into())); None }
            (12, "a `dozen`") => { res.push(Some("12".into())); None }
            ('y', "why") => { res.push(Some("y".into())); None }
        });
        assert!(outer.is_some() == inner.is_some());
        if let Some(k) = inner {
            res.push(Some(k.to_string()));
        }
    }
}

fn build(q: &Q) -> Question {
    let mut question = match &q.1 {
        Some(md) => Question::new(md),
        None => Question { md: None, answers: vec![], default_answer: None },
    };
    for (k, m) in &q.2 {
        let mut it = k.chars();
        match (it.next(), it.next(), k.parse::<u32>()) {
            (Some(c), None, Err(_)) => question.add_answer(c, m),
            (_, _, Ok(n)) if n.to_string() == *k => question.add_answer(n, m),
            _ => question.add_answer(k, m.clone()),
        }
    }
    if let Some(d) = &q.3 {
        question.set_default(d);
    }
    question
}

fn skin_of(seed: u64) -> MadSkin {
    let mut r = Rng::new(seed, "akskin");
    let k = r.below(6);
    let mut sk = mdgen::skin(&mut r, k);
    sk.special_chars.clear();
    sk
}

/// child process: asks the questions
pub fn child(seed: u64, path: &str) {
    let qs: Vec<Q> = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let sk = skin_of(seed);
    let mut res: Vec<Option<String>> = vec![];
    for q in &qs {
        mark();
        if q.0 >= 0 {
            let mut part = vec![];
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_macro(&sk, q.0, &mut part))).is_ok();
            if !ok {
                part.push(None);
            }
            res.extend(part);
        } else {
            let mut question = build(q);
            res.push(question.ask(&sk).ok());
        }
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::fs::write(format!("{path}.res"), serde_json::to_string(&res).unwrap()).unwrap();
}

const KEYS: &[&str] = &["y", "n", "a", "b", "1", "2", "12", "yes", "no", "a b", "é", "日", "*", "**", "`x`", "Y", "$0", "\\", " y", "~~", "0", "-", "nope"];
const BLANKS: &[&str] = &["", "", "", "", " ", "\t", "  ", "\r", " \t", "\u{a0}", "\u{3000}"];

fn md(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut s = String::from(*r.pick(&["What", "é", "Do you", "日本"]));
    for _ in 0..n {
        s.push_str(r.pick(&[" **bold**", " *it*", " `c*d`", " $0", " word", " ~~s~~ ?", " ?", " 日", " x **y *z* t**"]));
    }
    s
}
fn question(r: &mut Rng) -> Q {
    let big = r.chance(3);
    let lines = if big { r.range(3, 30) } else { r.range(1, 3) };
    let text = if r.chance(10) { None } else { Some((0..lines).map(|_| md(r)).collect::<Vec<_>>().join("\n")) };
    let n = if big { r.range(5, 40) } else { r.range(1, 5) };
    let ans: Vec<(String, String)> = (0..n).map(|_| (r.pick(KEYS).to_string(), md(r))).collect();
    let d = match r.below(5) {
        0 | 1 => None,
        2 => Some(r.pick(KEYS).to_string()),
        3 if r.chance(30) => Some(r.pick(&["", " ", "other "]).to_string()),
        _ => Some(ans[r.below(ans.len())].0.clone()),
    };
    (-1, text, ans, d)
}
fn typed(r: &mut Rng, q: &Q) -> String {
    let mut s = match r.below(10) {
        0 => String::new(),
        1..=5 => q.2[r.below(q.2.len())].0.clone(),
        6 => r.pick(KEYS).to_string(),
        7 => format!("{}{}", r.pick(&[" ", "x", "y", "\t", "\u{1b}"]), q.2[0].0),
        8 if r.chance(50) => q.2[r.below(q.2.len())].0.to_uppercase(),
        8 => {
            let k = &q.2[r.below(q.2.len())].0;
            match r.below(4) {
                0 => format!("{k} {k}"),
                1 => format!("{k}{k}"),
                2 => format!("{k}{}", r.pick(&["s", " z", ".", "\u{301}"])),
                _ => k.to_lowercase(),
            }
        }
        _ => {
            let k = &q.2[r.below(q.2.len())].0;
            let n = k.chars().count();
            k.chars().take(r.below(n + 1)).collect()
        }
    };
    if r.chance(1) {
        s.push_str(&"word ".repeat(100));
    }
    s.push_str(r.pick(BLANKS));
    s
}

fn qjson(q: &Q) -> String {
    let md: Vec<String> = q.1.iter().flat_map(|t| t.split('\n')).map(cps).collect();
    let ans: Vec<String> = q.2.iter().map(|(k, m)| format!("{{\"k\":{},\"md\":{}}}", cps(k), cps(m))).collect();
    let d: Vec<String> = q.3.iter().map(|d| cps(d)).collect();
    format!("\"md\":[{}],\"ans\":[{}],\"d\":[{}]", md.join(","), ans.join(","), d.join(","))
}

pub fn run(seed: u64, _prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, "ask");
    let tmp = format!("{}.child.{}", out.path, std::process::id());
    let res_path = format!("{tmp}.res");
    let mut n = 0;
    while n < budget {
        let sseed = r.below(1 << 20) as u64;
        let mut asked: Vec<Q> = vec![];
        let mut lines: Vec<String> = vec![];
        for _ in 0..r.range(4, 12) {
            let q = if r.chance(20) { macro_q(*r.pick(&[0, 1, 3])) } else { question(&mut r) };
            for _ in 0..r.below(4) {
                lines.push(typed(&mut r, &q));
            }
            if r.chance(85) {
                lines.push(q.2[r.below(q.2.len())].0.clone());
            }
            if q.0 == 1 {
                for _ in 0..r.below(3) {
                    lines.push(typed(&mut r, &macro_q(2)));
                }
            }
            asked.push(q);
        }
        if r.chance(50) {
            for _ in 0..20 {
                lines.push(typed(&mut r, asked.last().unwrap()));
            }
        }
        let mut input = lines.join("\n");
        let ended = r.chance(60);
        if ended && !lines.is_empty() {
            input.push('\n');
        } else if lines.last().is_some_and(|l| l.is_empty()) {
            // an empty line without its end isn't a line
            lines.pop();
        }
        let sk = skin_of(sseed);
        let mut st = Styles::default();
        std::fs::write(&tmp, serde_json::to_string(&asked).unwrap()).unwrap();
        let _ = std::fs::remove_file(&res_path);
        beat(&format!("questions {asked:?} lines {lines:?}"));
        let (ok, s) = spawn(&["ask-child", "--seed", &sseed.to_string(), "--out", &tmp], &input).unwrap();
        let res: Option<Vec<Option<String>>> =
            std::fs::read_to_string(&res_path).ok().and_then(|s| serde_json::from_str(&s).ok());
        let mut evs = vec![];
        match res {
            Some(res) if ok => {
                let mut parts = s.split('\u{2}').skip(1);
                let mut it = res.iter();
                let mut done = |q: &Q, evs: &mut Vec<String>| -> Option<String> {
                    let (p, x) = (parts.next(), it.next());
                    let mut rows = vec![];
                    let mut lines: Vec<&str> = p.unwrap_or("").split('\n').collect();
                    let tail = lines.pop().unwrap_or("");
                    for l in lines {
                        rows.push(format!("{{{}}}", shown(l, &mut st)));
                    }
                    let v: Vec<String> = x.iter().flat_map(|x| x.iter()).map(|x| cps(x)).collect();
                    evs.push(format!(
                        "{{{},\"out\":[{}],\"tail\":{},\"missing\":{},\"r\":[{}],\"exo\":{},\"mac\":{},\"p\":0}}",
                        qjson(q),
                        rows.join(","),
                        tail.len(),
                        (p.is_none() || x.is_none()) as u8,
                        v.join(","),
                        build(q).has_exotic_default() as u8,
                        (q.0 >= 0) as u8
                    ));
                    x.cloned().flatten()
                };
                for q in &asked {
                    let x = done(q, &mut evs);
                    if q.0 == 1 && x.as_deref() == Some("b") {
                        done(&macro_q(2), &mut evs);
                    }
                }
            }
            _ => evs.push(format!("{{{},\"out\":[],\"p\":1}}", qjson(&asked[0]))),
        }
        n += evs.len();
        let l: Vec<String> = lines.iter().map(|l| cps(l)).collect();
        out.line(
            &format!("{{\"sk\":{},\"sty\":{},\"lines\":[{}],\"ev\":[{}]}}", skin_json(&sk), st.json(), l.join(","), evs.join(",")),
            evs.len(),
        );
    }
    let _ = std::fs::remove_file(&tmp);
    let _ = std::fs::remove_file(&res_path);
}
