//! C26: decks with edits, against the second reader

use super::*;
use crate::deck::{flatten, prog, scale, ProgOpts};
use crate::num;
use crate::props::reader::Noise;
use crate::refread::{self, Analysis, No};
use crate::run::{Res, Verdict};
use crate::{ensure, fail};
use std::collections::BTreeMap;
use tiny_spice::analysis::Kind;

pub const C26: Prop = Prop {
    id: "C26",
    rule: "the rules decide the edited deck: it must be refused, or it says something else than before",
    quick: 500000,
    thorough: 3000000,
    f: c26,
};

const CHARS: &[char] = &[
    '0', '1', '9', 'a', 'X', 'R', 'k', 'm', 'u', 'e', '.', '-', '+', '{', '}', '=', ';', '*', ' ', '\t', '_', '(', ')', ',', '/', '?', 'V', 'p', 'n',
];
const WORDS: &[&str] = &[
    "0", "gnd", "GND", "Gnd", "1", "a", "2", "foo", "bar", "1k", "10u", "-3", "0.5e-3", "{r}", "{k}", "{c", "r=2k", "k={k}", "=", "R1", "X1", "V1", ".ends", ".endc", "*", ";", "SIN(0", "1k)", "PWL(0,", "r=0", "td=1m", "D1", "n-1", "a.b", "op",
    "tran",
];
const LINES: &[&str] = &[
    "", ";", "* note", "R9 1 0 1k", "R9 1 0", "R9 1 0 1k 2k", "Q1 1 2 3", "L1 1 0 1m", "C9 a 0 1u", "D9 a b", "D9 a", "E9 a 0 b 0 2", "E9 a 0 b 2", "G9 a 0 b 0 {k}", "V9 a 0 5", "V9 a 0", "V9 a 0 DC 5", "V9 a 0 SIN(0 1 1k)",
    "V9 a 0 SIN(0 1)", "V9 a 0 PWL(0, 0, 1m, 1) r=0", "V9 a 0 PWL(0,0,1m)", "I9 a 0 SIN (1 2 50 )", "I9 a 0 1m", "I9 a b", "X9 a b nosuch", "X9 foo", "X9", ".subckt foo a b", ".subckt", ".subckt new a a", ".subckt new a 0", ".ends", ".ends foo",
    ".control", ".endc", ".end", ".lib x y", ".include x", ".model d1 d", "op", "tran 1m 10m", "tran 1m", "tran 0 1m", "option RELTOL = 1e-5", "option ABSTOL 1", "option RMAX = 0", "option RMAX=2", "option FOO=1", "run", "r1 1 0 1k", "+ 1k", "10",
];

fn edit(t: &mut Tape, lines: &mut Vec<String>) -> &'static str {
    let n = lines.len();
    // the first line is the title; each kind of line as often as any other, so
    // that there's more than elements edited
    let mut kinds: BTreeMap<(char, u8), Vec<usize>> = BTreeMap::new();
    for (k, l) in lines.iter().enumerate().skip(1) {
        let shape = match l {
            _ if l.contains("SIN") && l.contains('(') => 1,
            _ if l.contains("PWL") && l.contains('(') => 2,
            _ if l.contains('=') => 3,
            _ if l.contains('{') => 4,
            _ => 0,
        };
        kinds.entry((l.chars().next().unwrap_or(' '), shape)).or_default().push(k);
    }
    let lists: Vec<usize> = (1..n).filter(|&k| lines[k].contains('(')).collect();
    let kinds: Vec<Vec<usize>> = kinds.into_values().collect();
    let at = move |t: &mut Tape, n: usize| {
        if n < 2 {
            0
        } else if t.chance(1, 3) {
            t.usize(1, n - 1)
        } else {
            let kind = t.pick(&kinds);
            *t.pick(kind)
        }
    };
    match t.weighted(&[2, 2, 2, 2, 3, 3, 3, 4, 4, 3, if lists.is_empty() { 0 } else { 3 }]) {
        0 => {
            let k = at(t, n);
            lines.remove(k);
            "line deleted"
        }
        1 => {
            let k = at(t, n);
            let l = lines[k].clone();
            let to = t.usize(1.min(n), n);
            lines.insert(to, l);
            "line repeated"
        }
        2 => {
            let k = at(t, n);
            let l = lines.remove(k);
            let to = t.usize(1.min(n - 1), n - 1);
            lines.insert(to, l);
            "line moved"
        }
        3 => {
            let l = t.pick(LINES).to_string();
            let to = t.usize(1.min(n), n);
            lines.insert(to, l);
            "line inserted"
        }
        4..=6 => {
            // words
            let k = at(t, n);
            let mut w: Vec<String> = lines[k].split(' ').map(|s| s.to_string()).collect();
            let j = t.usize(0, w.len() - 1);
            let what = match t.below(5) {
                0 => {
                    w.remove(j);
                    "word deleted"
                }
                1 => {
                    let x = w[j].clone();
                    w.insert(j, x);
                    "word repeated"
                }
                2 => {
                    let i = t.usize(0, w.len() - 1);
                    w.swap(i, j);
                    "words swapped"
                }
                3 => {
                    w[j] = t.pick(WORDS).to_string();
                    "word replaced"
                }
                _ => {
                    // from elsewhere in the deck
                    let k2 = at(t, n);
                    let o: Vec<&str> = lines[k2].split(' ').collect();
                    w[j] = o[t.usize(0, o.len() - 1)].to_string();
                    "word copied"
                }
            };
            lines[k] = w.join(" ");
            what
        }
        7 | 8 => {
            let k = at(t, n);
            let mut c: Vec<char> = lines[k].chars().collect();
            if c.is_empty() {
                c.push(' ');
            }
            let j = t.usize(0, c.len() - 1);
            let what = match t.below(4) {
                0 => {
                    c.remove(j);
                    "character deleted"
                }
                1 => {
                    c.insert(j, *t.pick(CHARS));
                    "character inserted"
                }
                2 => {
                    c[j] = *t.pick(CHARS);
                    "character replaced"
                }
                _ => {
                    let i = (j + 1).min(c.len() - 1);
                    c.swap(i, j);
                    "characters swapped"
                }
            };
            lines[k] = c.into_iter().collect();
            what
        }
        10 => {
            // a list of numbers
            let k = *t.pick(&lists);
            let l = lines[k].clone();
            let a = l.find('(').unwrap() + 1;
            let b = l.find(')').unwrap_or(l.len()).max(a);
            let mut v: Vec<String> = l[a..b].split([' ', ',']).filter(|x| !x.is_empty()).map(|s| s.to_string()).collect();
            let j = t.usize(0, v.len());
            let what = match t.below(4) {
                0 if j < v.len() => {
                    v.remove(j);
                    "number deleted from a list"
                }
                1 if j < v.len() => {
                    let to = t.usize(0, v.len() - 1);
                    v.swap(j, to);
                    "numbers of a list swapped"
                }
                2 if j < v.len() => {
                    v[j] = t.pick(&["0", "-1", "1k", "x", "{r}", "1e-3", "1.2.3", "4us"]).to_string();
                    "number of a list replaced"
                }
                _ => {
                    let x = if t.chance(1, 2) && !v.is_empty() { t.pick(&v).clone() } else { t.pick(&["0", "1", "50", "1m", "-3"]).to_string() };
                    v.insert(j, x);
                    "number added to a list"
                }
            };
            let sep = t.pick(&[" ", ",", ", "]);
            lines[k] = format!("{}{}{}", &l[..a], v.join(sep), &l[b..]);
            what
        }
        _ => {
            // two lines become one, or one line two
            let k = at(t, n);
            if t.chance(1, 2) && k + 1 < n {
                let l = lines.remove(k + 1);
                lines[k] += " ";
                lines[k] += &l;
                "lines joined"
            } else {
                let w: Vec<String> = lines[k].split(' ').map(|s| s.to_string()).collect();
                let j = t.usize(0, w.len() - 1);
                lines[k] = w[..j].join(" ");
                lines.insert(k + 1, w[j..].join(" "));
                "line split"
            }
        }
    }
}

fn c26(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let o = ProgOpts {
        defs: (0, 3),
        caps: true,
        diodes: t.chance(1, 3),
        dep: t.chance(1, 2),
        sources: true,
        vary: true,
        params: 2,
        max_els: 30,
        dup_names: t.chance(1, 3),
        any_value: true,
    };
    let p = prog(t, &o, &sc);
    let mut control: Vec<String> = vec![];
    if t.chance(1, 2) {
        control.push(t.pick(&["option RELTOL = 1e-5", "option ABSTOL=2n", "option RMAX =3", "option FOO = 1", "echo x"]).to_string());
    }
    for _ in 0..t.weighted(&[2, 6, 3]) {
        let at = t.usize(0, control.len());
        let s = match t.weighted(&[2, 3, 1]) {
            0 => "op",
            1 => t.pick(&["tran 1m 20m 5m", "tran 1u 10u", "tran 10us 0.5e-3s"]),
            _ => t.pick(&["option RELTOL = 1e-3", "option ABSTOL=1n", "option RMAX =2"]),
        };
        control.insert(at, s.to_string());
    }
    let before = p.deck(t, &control);
    let mut lines: Vec<String> = before.lines().map(|s| s.to_string()).collect();
    let edits = t.weighted(&[1, 10, 6, 3]);
    let mut kinds = vec![];
    for _ in 0..edits {
        kinds.push(edit(t, &mut lines));
    }
    if t.chance(1, 4) {
        let mut noise = Noise::pick(t);
        let mut out = vec![lines[0].clone()];
        noise.lines(t, &lines[1..], &mut out);
        lines = out;
    }
    let text = lines.join("\n") + "\n";
    ctx.show = text.clone();

    let want = refread::read(&text);
    let got = sim::read_text(ctx, &text);
    for k in &kinds {
        ctx.label(k);
    }
    let (prog, c) = match want {
        Err(No::Unclear(why)) => {
            ctx.label("the rules don't say");
            ctx.show += &format!("\n(the rules don't say: {})", why);
            return Ok(Verdict::Discard);
        }
        Err(No::Refuse(why)) => {
            ctx.label("must be refused");
            ctx.nontrivial = true;
            ensure!(got.is_err(), "the deck is read although it must be refused: {}", why);
            return Ok(Verdict::Pass);
        }
        Ok(x) => x,
    };
    ctx.label("must be read");
    let d = match got {
        Ok(d) => d,
        Err(e) => fail!("the deck is refused: {}", e),
    };
    let vt = sim::thermal_voltage(27.0);
    let fl = flatten(&prog, vt);
    sim::match_up(&fl.flat, &fl.names, &d.ckt)?;
    let kind = match d.cfg.kind {
        None => None,
        Some(Kind::DcOperatingPoint) => Some(Analysis::Op),
        Some(Kind::Transient) => Some(Analysis::Tran),
        _ => fail!("an analysis nobody asked for"),
    };
    ensure!(kind == c.kind, "the analysis is {:?}, asked for is {:?}", kind, c.kind);
    let dflt = Configuration::new();
    let (step, stop, start) = c.tran.unwrap_or((dflt.TSTEP, dflt.TSTOP, 0.0));
    for (what, a, b) in [
        ("TSTEP", d.cfg.TSTEP, step),
        ("TSTOP", d.cfg.TSTOP, stop),
        ("TSTART", d.cfg.TSTART, start),
        ("ABSTOL", d.cfg.ABSTOL, c.abstol.unwrap_or(1e-9)),
        ("RELTOL", d.cfg.RELTOL, c.reltol.unwrap_or(1e-4)),
        ("RMAX", d.cfg.RMAX, c.rmax.unwrap_or(5.0)),
    ] {
        ensure!(num::close(a, b, 1e-15), "{} is {:e}, expected {:e}", what, a, b);
    }
    let same = match refread::read(&before) {
        Ok((p0, c0)) => format!("{:?} {:?}", flatten(&p0, vt), c0) == format!("{:?} {:?}", fl, c),
        _ => false,
    };
    if same {
        ctx.label("means the same");
    }
    ctx.nontrivial = !same;
    Ok(Verdict::Pass)
}
