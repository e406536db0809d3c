//! C13: numbers

use super::*;
use crate::num::{self, Val};
use crate::run::{guarded, Res, Verdict};
use crate::{ensure, fail};
use tiny_spice::bracket_expression::{extract_expression, extract_value, Expression};
use tiny_spice::circuit::Element;

pub const C13: Prop = Prop {
    id: "C13",
    rule: "a number with decimals, an exponent, a scale letter or a unit, or a text that isn't a number",
    quick: 1200000,
    thorough: 24000000,
    f: c13,
};

const REL: f64 = 1e-15;

/// A number, in its widest sense
fn any(t: &mut Tape, signed: bool) -> Val {
    let neg = signed && t.chance(1, 3);
    match t.weighted(&[8, 4, 4, 4, 2, 1]) {
        0 => {
            let n = t.usize(1, 17);
            let mut d = String::new();
            for k in 0..n {
                d.push(if k == 0 { *t.pick(b"123456789") as char } else { *t.pick(b"0123456789") as char });
            }
            let e = t.int(-18, 8) as i32;
            num::notate(t, neg, &d, e - n as i32 + 1)
        }
        1 => num::number(t, -15, 12, signed),
        2 => {
            // any exponent a double has
            let d = t.int(1, 99999).to_string();
            let e = t.int(-300, 300) as i32;
            let sign = if e < 0 { "-" } else { *t.pick(&["", "", "+"]) };
            let w = *t.pick(&[1, 1, 2, 3, 4, 8]);
            let s = format!("{}{}e{}{:0w$}", if neg { "-" } else { "" }, d, sign, e.abs());
            Val { val: s.parse().unwrap(), text: s }
        }
        3 => {
            // zeros in front, zeros behind
            let a = t.int(0, 999);
            let b = t.int(0, 999);
            let z = "0".repeat(t.usize(0, 3));
            let s = format!("{}{}{}.{:03}{}", if neg { "-" } else { "" }, z, a, b, z);
            Val { val: s.parse().unwrap(), text: s }
        }
        4 => {
            // more digits than a machine number has, before or behind the point
            let digits = |t: &mut Tape, n: usize| -> String { (0..n).map(|_| *t.pick(b"0123456789") as char).collect() };
            let n = t.usize(1, 40);
            let a = if t.chance(1, 3) { format!("{}{}", "0".repeat(n), t.int(0, 99)) } else { digits(t, n) };
            let f = if t.chance(1, 2) {
                let n = t.usize(1, 40);
                format!(".{}", digits(t, n))
            } else {
                String::new()
            };
            let (l, e) = *t.pick(&[("", 0), ("e-12", -12), ("e-30", -30), ("e5", 5), ("k", 3), ("m", -3), ("u", -6), ("n", -9), ("p", -12)]);
            let s = format!("{}{}{}", if neg { "-" } else { "" }, a, f);
            Val { val: format!("{}e{}", s, e).parse().unwrap(), text: format!("{}{}", s, l) }
        }
        _ => {
            let a = t.int(0, 1_000_000);
            let (l, e) = *t.pick(&num::SUFFIX);
            let s = format!("{}{}", if neg { "-" } else { "" }, a);
            Val { val: format!("{}e{}", s, e).parse().unwrap(), text: format!("{}{}", s, l) }
        }
    }
}

fn junk(t: &mut Tape) -> String {
    let fixed = [
        "", "+", "-", "e", "e5", "E5", ".", "k", "m", "u", "n", "p", "V", "nan", "NaN", "inf", "-inf", "+inf", "infinity", "Infinity", "abc", "R1",
        "+-1", "-+1", "--1", "++1", "+e5", "-e5", "+k", "-k", "-m", "+.", "_1", "x10", "{", "}", "(1", "=1", ",", "*1", "#", "\u{0663}", "\u{ff11}", "\u{b2}", "-V",
        "+u", "true", "None", "-nan", "+p",
    ];
    match t.weighted(&[4, 2, 2]) {
        0 => t.pick(&fixed).to_string(),
        1 => {
            // an exponent marker without digits
            let m = num::plain(&t.int(0, 9999).to_string(), t.int(-4, 1) as i32);
            let neg = if t.chance(1, 3) { "-" } else { "" };
            format!("{}{}{}", neg, m, t.pick(&["e", "e+", "e-"]))
        }
        _ => {
            // something that starts with a letter or a bracket
            let n = t.usize(1, 5);
            let mut s = (*t.pick(b"abcdfghijlkmnopqrstuvwxyzABCDEFXYZ_({=*/") as char).to_string();
            for _ in 0..n {
                s.push(*t.pick(b"0123456789ekmunp.+-") as char);
            }
            s
        }
    }
}

fn c13(t: &mut Tape, ctx: &mut Ctx) -> Res {
    match t.weighted(&[6, 3, 2]) {
        0 => {
            let v = any(t, true);
            let text = num::unit(t, &v.text);
            ctx.show = text.clone();
            let got = guarded(|| extract_value(&text))?;
            match got {
                Some(x) => ensure!(num::close(x, v.val, REL), "'{}' is read as {:e}, it is {:e}", text, x, v.val),
                None => fail!("'{}' isn't read as a number", text),
            }
            match guarded(|| extract_expression(&text))? {
                Some(Expression::Literal(x)) => ensure!(num::close(x, v.val, REL), "the expression '{}' is read as {:e}, it is {:e}", text, x, v.val),
                other => fail!("the expression '{}' is read as {:?}", text, other),
            }
            ctx.label("number");
            ctx.nontrivial = !text.chars().all(|c| c.is_ascii_digit());
        }
        1 => {
            let text = junk(t);
            ctx.show = format!("not a number: '{}'", text);
            let got = guarded(|| extract_value(&text))?;
            ensure!(got.is_none(), "'{}' is read as the number {:?}", text, got);
            if !text.starts_with('{') {
                let e = guarded(|| extract_expression(&text))?;
                ensure!(e.is_none(), "'{}' is read as the expression {:?}", text, e);
            }
            ctx.label("not a number");
            ctx.nontrivial = true;
        }
        _ => return everywhere(t, ctx),
    }
    Ok(Verdict::Pass)
}

/// A deck with a number in every place that takes one
fn everywhere(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut n = |signed: bool| -> Val {
        let v = any(t, signed);
        let v = if v.val == 0.0 { Val { text: "1".into(), val: 1.0 } } else { v };
        Val { text: num::unit(t, &v.text), val: v.val }
    };
    let (r, c, e, g, v, i) = (n(true), n(true), n(true), n(true), n(true), n(true));
    let (s1, s2, s3, s4, s5, s6) = (n(true), n(true), n(false), n(true), n(true), n(false));
    let (p1, p2, td) = (n(true), n(true), n(false));
    let (d1, o1) = (n(true), n(true));
    let (abs, rel, rmax) = (n(false), n(false), n(false));
    let (step, stop, start) = (n(false), n(false), n(false));
    let deck = format!(
        "numbers\n.subckt sub a p={} q=1\nRp a 0 {{p}}\nRq a 0 {{q}}\n.ends\nR1 1 0 {}\nC1 1 0 {}\nE1 2 0 1 0 {}\nG1 3 0 1 0 {}\nV1 4 0 {}\nI1 5 0 {}\n\
         V2 6 0 SIN({} {} {})\nI2 7 0 SIN({} {} {})\nV3 8 0 PWL(0,{}, 1,{}) td={}\nX1 9 sub q={}\n.control\noption ABSTOL = {}\noption RELTOL={}\noption RMAX= {}\ntran {} {} {}\n.endc\n",
        d1.text, r.text, c.text, e.text, g.text, v.text, i.text, s1.text, s2.text, s3.text, s4.text, s5.text, s6.text, p1.text, p2.text, td.text, o1.text,
        abs.text, rel.text, rmax.text, step.text, stop.text, start.text
    );
    ctx.show = deck.clone();
    let d = sim::read_text(ctx, &deck)?;
    let mut got: Vec<(&str, f64, f64)> = vec![
        ("ABSTOL", d.cfg.ABSTOL, abs.val),
        ("RELTOL", d.cfg.RELTOL, rel.val),
        ("RMAX", d.cfg.RMAX, rmax.val),
        ("TSTEP", d.cfg.TSTEP, step.val),
        ("TSTOP", d.cfg.TSTOP, stop.val),
        ("TSTART", d.cfg.TSTART, start.val),
    ];
    let mut rs = vec![];
    for el in &d.ckt.elements {
        match el {
            Element::R(x) if x.ident == "R1" => got.push(("R1", x.value, r.val)),
            Element::R(x) => rs.push((x.ident.clone(), x.value)),
            Element::C(x) => got.push(("C1", x.value, c.val)),
            Element::Vcvs(x) => got.push(("E1", x.k, e.val)),
            Element::Vccs(x) => got.push(("G1", x.k, g.val)),
            Element::V(x) => got.push(("V1", x.value, v.val)),
            Element::I(x) => got.push(("I1", x.value, i.val)),
            Element::Vsin(x) => {
                got.push(("V2 offset", x.vo, s1.val));
                got.push(("V2 amplitude", x.va, s2.val));
                got.push(("V2 frequency", x.freq, s3.val));
            }
            Element::Isin(x) => {
                got.push(("I2 offset", x.vo, s4.val));
                got.push(("I2 amplitude", x.va, s5.val));
                got.push(("I2 frequency", x.freq, s6.val));
            }
            Element::Vpwl(x) => {
                ensure!(x.pat.len() == 2, "the PWL source has {} points", x.pat.len());
                got.push(("V3 first value", x.pat[0].1, p1.val));
                got.push(("V3 second value", x.pat[1].1, p2.val));
                got.push(("V3 delay", x.t_delay, td.val));
            }
            Element::D(_) => fail!("there is a diode"),
        }
    }
    for (name, want) in [("X1.Rp", d1.val), ("X1.Rq", o1.val)] {
        match rs.iter().find(|r| r.0 == name) {
            Some(r) => got.push((if name == "X1.Rp" { "default" } else { "override" }, r.1, want)),
            None => fail!("no element {}: {:?}", name, rs),
        }
    }
    ensure!(got.len() == 23, "{} of the 23 numbers found", got.len());
    for (what, g, w) in got {
        ensure!(num::close(g, w, REL), "{} is read as {:e}, it is {:e}", what, g, w);
    }
    ctx.label("deck with a number everywhere");
    ctx.nontrivial = true;
    Ok(Verdict::Pass)
}
