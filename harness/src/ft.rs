//! Fitting driver (C17): histories of fits, extensions and fills of composites.
use crate::emu::linear;
use crate::mdgen::{self, MdOpts};
use crate::out::*;
use crate::rd::{al, skin_json};
use crate::rng::Rng;
use crate::wr::{compounds_json, kind, mode};
use termimad::minimad::{Alignment, Composite, CompositeStyle, Compound};
use termimad::*;

fn spc(fc: &FmtComposite) -> String {
    match fc.spacing {
        Some(s) => format!("{{\"w\":{},\"al\":\"{}\"}}", s.width, al(s.align)),
        None => "{\"w\":-1,\"al\":\"-\"}".into(),
    }
}
fn fc_json(fc: &FmtComposite) -> String {
    let (k, d) = kind(fc.kind);
    format!("{{\"kind\":\"{}\",\"d\":{},\"s\":{},\"vl\":{},\"sp\":{}}}", k, d, compounds_json(&fc.compounds), fc.visible_length, spc(fc))
}

fn compounds<'s>(parts: &'s [(String, usize)]) -> Vec<Compound<'s>> {
    parts
        .iter()
        .map(|(s, f)| {
            let mut c = Compound::raw_str(s);
            c.bold = f & 1 != 0;
            c.italic = f & 2 != 0;
            c.strikeout = f & 4 != 0;
            c.code = f & 8 != 0;
            c
        })
        .collect()
}

fn one(r: &mut Rng, out: &mut Out, sk: &MadSkin, dense: bool) {
    let parts: Vec<(String, usize)> = if dense {
        let alpha: &[char] = match r.below(4) {
            0 => &['a', 'b', ' '],
            1 => &['a', '日', ' '],
            2 => &['a', 'b', '日', '\u{301}'],
            _ => &['a', 'b', 'c', 'd', 'e'],
        };
        (0..r.range(0, 4)).map(|_| ((0..r.below(12)).map(|_| *r.pick(alpha)).collect(), *r.pick(&[0, 0, 1, 2, 3, 4, 8, 9]))).collect()
    } else {
        let words = if r.chance(2) { r.range(20, 100) } else { r.range(1, 12) };
        let md = mdgen::inline(r, &MdOpts::default(), words);
        Composite::from_inline(&md).compounds.iter().map(|c| (c.src.to_string(), crate::wr::flags(c))).collect()
    };
    let style = match r.below(8) {
        0 => CompositeStyle::ListItem(if r.chance(5) { r.range(3, 255) } else { r.below(3) } as u8),
        1 => CompositeStyle::Quote,
        2 => CompositeStyle::Header(r.range(1, 8) as u8),
        3 => CompositeStyle::Code,
        _ => CompositeStyle::Paragraph,
    };
    let cs = compounds(&parts);
    let kd: CompositeKind = style.into();
    let mut fc = match r.below(4) {
        0 => {
            // compound by compound
            let mut fc = FmtComposite::new();
            let mut it = cs.into_iter();
            if r.chance(50) {
                if let Some(c) = it.next() {
                    fc = FmtComposite::from_compound(c);
                }
            }
            for c in it {
                fc.add_compound(c);
            }
            if kd != CompositeKind::Paragraph {
                fc.kind = kd;
                fc.recompute_width(sk);
            }
            fc
        }
        1 => FmtComposite::from(Composite { style, compounds: cs }, sk),
        _ => FmtComposite { kind: kd, visible_length: sk.visible_composite_length(kd, &cs), compounds: cs, spacing: None },
    };
    let pre = fc.visible_length - sk.visible_composite_length(CompositeKind::Paragraph, &fc.compounds);
    let (k, d) = kind(fc.kind);
    let init = format!("{{\"kind\":\"{}\",\"d\":{},\"s\":{},\"vl\":{},\"sp\":{}}}", k, d, compounds_json(&fc.compounds), fc.visible_length, spc(&fc));
    let n = r.range(1, 4);
    let mut evs = vec![];
    for _ in 0..n {
        let lo = if pre == 0 { 0 } else { pre + 1 };
        let w = match r.below(5) {
            0 => lo + r.below(4),
            1 => (fc.visible_length + r.below(3)).saturating_sub(1).max(lo),
            2 => fc.visible_length.saturating_sub(r.below(6)).max(lo),
            3 => fc.visible_length + r.below(12) + lo,
            _ => lo + r.below(fc.visible_length + 2),
        };
        let a = *r.pick(&[Alignment::Left, Alignment::Right, Alignment::Center, Alignment::Unspecified]);
        let how = r.below(6);
        let name = ["fit", "fit", "fit", "fill", "fill", "extend"][how];
        let head = format!("\"how\":\"{}\",\"w\":{},\"al\":\"{}\"", name, w, al(a));
        let before = fc.clone();
        let res = guard(&format!("{} {}", head, fc_json(&fc)), || {
            let mut same = true;
            match how {
                0 | 1 => fc.fit_width(w, a, sk),
                2 => {
                    // as fit_width
                    if a == Alignment::Unspecified {
                        let mut g = fc.clone();
                        Fitter::default().fit(&mut g, w, sk);
                        fc.fit_width(w, a, sk);
                        same = compounds_json(&g.compounds) == compounds_json(&fc.compounds);
                        assert!(same, "the default fitter differs from the one for an unspecified alignment");
                    } else {
                        if fc.spacing.is_none() {
                            Fitter::for_align(a).fit(&mut fc, w, sk)
                        } else {
                            fc.fit_width(w, a, sk)
                        }
                    }
                }
                3 | 4 => {
                    fc.fill_width(w, a, sk);
                    if before.spacing.is_none() {
                        let c = Composite { style, compounds: before.compounds.clone() };
                        let mut b: Vec<u8> = vec![];
                        sk.write_composite_fill(&mut b, c, w, a).unwrap();
                        let fi = FmtInline { skin: sk, composite: fc.clone() };
                        same = fi.to_string().into_bytes() == b;
                    }
                }
                _ => fc.extend_width(w, a),
            }
            let fi = FmtInline { skin: sk, composite: fc.clone() };
            let (v, _) = linear(&fi.to_string());
            let s: String = v.iter().map(|x| x.0).collect();
            format!("\"p\":false,\"same\":{},\"r\":{},\"c\":{}", same, fc_json(&fc), cps(&s))
        });
        match res {
            Ok(s) => evs.push(format!("{{{},{}}}", head, s)),
            Err(m) => {
                evs.push(format!("{{{},\"p\":true,\"msg\":{}}}", head, jstr(&m)));
                break;
            }
        }
    }
    let s = format!("{{\"mode\":\"{}\",\"sk\":{},\"init\":{},\"ev\":[{}]}}", mode(sk), skin_json(sk), init, evs.join(","));
    out.line(&s, evs.len());
}

pub fn run(seed: u64, prop: &str, _thorough: bool, budget: usize, out: &mut Out) {
    let mut r = Rng::new(seed, prop);
    while out.events < budget {
        let k = r.below(6);
        let sk = mdgen::skin(&mut r, k);
        for _ in 0..10 {
            let dense = r.chance(60);
            one(&mut r, out, &sk, dense);
        }
    }
}
