//! Numbers in the notations the deck language supports, with their exact value

use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub text: String,
    pub val: f64,
}

/// digits * 10^exp as a plain decimal (no exponent)
pub fn plain(digits: &str, exp: i32) -> String {
    let d = digits.trim_start_matches('0');
    let d = if d.is_empty() { "0" } else { d };
    if exp >= 0 {
        format!("{}{}", d, "0".repeat(exp as usize))
    } else {
        let k = (-exp) as usize;
        if d.len() > k {
            format!("{}.{}", &d[..d.len() - k], &d[d.len() - k..])
        } else {
            format!("0.{}{}", "0".repeat(k - d.len()), d)
        }
    }
}

pub const SUFFIX: [(&str, i32); 5] = [("k", 3), ("m", -3), ("u", -6), ("n", -9), ("p", -12)];

/// Write digits*10^exp in some notation
pub fn notate(t: &mut Tape, neg: bool, digits: &str, exp: i32) -> Val {
    let val: f64 = format!("{}{}e{}", if neg { "-" } else { "" }, digits, exp).parse().unwrap();
    let sign = if neg {
        "-"
    } else if t.chance(1, 20) {
        "+"
    } else {
        ""
    };
    let magnitude = digits.trim_start_matches('0').len() as i32 + exp;
    // plain decimals if they aren't silly, else an exponent
    let plain_ok = magnitude > -8 && magnitude < 10;
    let form = if plain_ok { t.weighted(&[4, 4, 3]) } else { 1 + t.weighted(&[3, 3]) };
    let body = match form {
        0 => plain(digits, exp),
        1 => {
            // mantissa and exponent, with the point anywhere
            let p = t.usize(0, digits.len() - 1) as i32;
            let e = exp + p;
            let m = plain(digits, -p);
            let es = if e < 0 {
                format!("e-{:0w$}", -e, w = t.usize(1, 2))
            } else if t.chance(1, 3) {
                format!("e+{}", e)
            } else {
                format!("e{}", e)
            };
            format!("{}{}", m, es)
        }
        _ => {
            // a scale letter near the magnitude
            let mut best: Vec<(&str, i32)> = SUFFIX.iter().filter(|s| (magnitude - s.1).abs() <= 6).cloned().collect();
            if best.is_empty() {
                best = vec![if magnitude > 0 { SUFFIX[0] } else { SUFFIX[4] }];
            }
            let (s, se) = *t.pick(&best);
            let m = plain(digits, exp - se);
            format!("{}{}", m, s)
        }
    };
    Val { text: format!("{}{}", sign, body), val }
}

/// A non-zero number with magnitude in about 10^lo..10^hi
pub fn number(t: &mut Tape, lo: i32, hi: i32, signed: bool) -> Val {
    let e = t.int(lo as i64, hi as i64 - 1) as i32;
    let neg = signed && t.chance(1, 2);
    match t.weighted(&[4, 4, 3, 1]) {
        0 => notate(t, neg, "1", e),
        1 => {
            let d = *t.pick(&["2", "5", "47", "22", "33", "15"]);
            let s = d.len() as i32 - 1;
            notate(t, neg, d, e - s)
        }
        2 => {
            let d = t.int(100, 999).to_string();
            notate(t, neg, &d, e - 2)
        }
        _ => {
            let d = t.int(1_000_000_000, 9_999_999_999).to_string();
            notate(t, neg, &d, e - 9)
        }
    }
}

/// As `number`, sometimes zero
pub fn number0(t: &mut Tape, lo: i32, hi: i32, signed: bool) -> Val {
    if t.chance(1, 12) {
        Val { text: t.pick(&["0", "0.0", "0e0"]).to_string(), val: 0.0 }
    } else {
        number(t, lo, hi, signed)
    }
}

/// Text that reads back as exactly this value
pub fn exact(v: f64) -> Val {
    Val { text: format!("{:e}", v), val: v }
}

/// A unit to hang on a number
pub fn unit(t: &mut Tape, text: &str) -> String {
    // after a scale letter anything goes; without one it must not look like one
    let scaled = text.ends_with(|c: char| c.is_ascii_alphabetic());
    let u: &str = if scaled {
        t.pick(&["", "", "", "", "V", "A", "F", "s", "Ohm", "Hz", "Volts"])
    } else {
        t.pick(&["", "", "", "", "V", "A", "F", "s", "Ohm", "Hz"])
    };
    format!("{}{}", text, u)
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs())
}
