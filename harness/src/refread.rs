//! A second reader of decks: what a deck means by the documented rules. It knows
//! three answers: the deck says this, the deck must be refused, or the rules don't
//! say. Nothing in here uses the code under test.

use crate::deck::{is_ground, Def, Expr, Item, Prog};
use crate::model::Src;
use crate::num::Val;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Analysis {
    Op,
    Tran,
}

#[derive(Clone, Debug)]
pub struct Control {
    pub kind: Option<Analysis>,
    pub tran: Option<(f64, f64, f64)>,
    pub abstol: Option<f64>,
    pub reltol: Option<f64>,
    pub rmax: Option<f64>,
}

/// Why a deck has no meaning
#[derive(Clone, Debug)]
pub enum No {
    /// it must be refused
    Refuse(String),
    /// the rules don't say
    Unclear(String),
}

type Out<T> = Result<T, No>;

fn refuse<T>(s: impl Into<String>) -> Out<T> {
    Err(No::Refuse(s.into()))
}
fn unclear<T>(s: impl Into<String>) -> Out<T> {
    Err(No::Unclear(s.into()))
}

/// A number with scale letter and unit
pub fn number(s: &str) -> Out<f64> {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    if i == b.len() {
        return refuse(format!("'{}' isn't a number", s));
    }
    if !b[i].is_ascii_digit() {
        return if b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            unclear(format!("number without a digit before the point: '{}'", s))
        } else {
            refuse(format!("'{}' isn't a number", s))
        };
    }
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i < b.len() && b[i] == b'.' {
        let from = i + 1;
        i = from;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == from {
            return unclear(format!("number without a digit after the point: '{}'", s));
        }
    }
    let mantissa = &s[..i];
    let val = |text: String| text.parse::<f64>().map_err(|_| No::Unclear(s.to_string()));
    let rest = &s[i..];
    if rest.is_empty() {
        return val(mantissa.to_string());
    }
    if rest.starts_with('e') {
        let mut j = 1;
        let r = rest.as_bytes();
        if j < r.len() && (r[j] == b'+' || r[j] == b'-') {
            j += 1;
        }
        let from = j;
        while j < r.len() && r[j].is_ascii_digit() {
            j += 1;
        }
        if j == from {
            return if j == r.len() { refuse(format!("exponent without digits: '{}'", s)) } else { unclear(format!("odd exponent: '{}'", s)) };
        }
        if j - from > 3 {
            return unclear("long exponent");
        }
        return match &rest[j..] {
            "" | "V" | "A" | "F" | "s" | "Ohm" | "Hz" => val(format!("{}{}", mantissa, &rest[..j])),
            u => unclear(format!("odd unit '{}'", u)),
        };
    }
    for (l, e) in crate::num::SUFFIX {
        if let Some(u) = rest.strip_prefix(l) {
            return match u {
                "" | "V" | "A" | "F" | "s" | "Ohm" | "Hz" | "Volts" => val(format!("{}e{}", mantissa, e)),
                _ => unclear(format!("odd unit '{}'", u)),
            };
        }
    }
    match rest {
        "V" | "A" | "F" | "s" | "Ohm" | "Hz" => val(mantissa.to_string()),
        _ => unclear(format!("odd unit '{}'", rest)),
    }
}

fn expr(s: &str) -> Out<Expr> {
    if let Some(r) = s.strip_prefix('{') {
        let id: String = r.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
        return match &r[id.len()..] {
            "}" if !id.is_empty() => Ok(Expr::Id(id)),
            "}" => unclear("{}"),
            "" => refuse(format!("'{}' isn't closed", s)),
            x if x.starts_with('}') => unclear(format!("something after a }}: '{}'", s)),
            _ => refuse(format!("'{}' isn't an identifier in brackets", s)),
        };
    }
    Ok(Expr::Lit(Val { val: number(s)?, text: s.to_string() }))
}

fn node(s: &str) -> Out<String> {
    if s.chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) {
        Ok(s.to_string())
    } else {
        refuse(format!("bad node name '{}'", s))
    }
}

fn sin(words: &[&str]) -> Out<Src> {
    let text = words.join(" ");
    let inner = match text.strip_prefix("SIN").map(|r| r.trim()).and_then(|r| r.strip_prefix('(')).and_then(|r| r.strip_suffix(')')) {
        Some(i) => i,
        None => return unclear(format!("odd SIN: '{}'", text)),
    };
    if inner.contains(['(', ')', ',']) || inner.contains("SIN") {
        return unclear(format!("odd SIN: '{}'", text));
    }
    let v: Vec<&str> = inner.split_whitespace().collect();
    let nums: Vec<Out<f64>> = v.iter().map(|s| number(s)).collect();
    if nums.iter().any(|n| matches!(n, Err(No::Unclear(_)))) {
        return unclear(format!("odd number in '{}'", text));
    }
    if v.len() != 3 {
        return refuse(format!("SIN with {} numbers", v.len()));
    }
    let n: Vec<f64> = nums.into_iter().collect::<Out<Vec<f64>>>()?;
    Ok(Src::Sin { vo: n[0], va: n[1], freq: n[2] })
}

fn pwl(words: &[&str]) -> Out<Src> {
    let mut end = words.len();
    let (mut td, mut rep) = (None, None);
    while end > 0 && words[end - 1].contains('=') {
        end -= 1;
        let w = words[end];
        let b: Vec<&str> = w.split('=').collect();
        if b.len() != 2 {
            return unclear(format!("odd PWL parameter '{}'", w));
        }
        let v = match expr(b[1])? {
            Expr::Lit(v) => v.val,
            Expr::Id(_) => return refuse("PWL parameter that isn't a number"),
        };
        let slot = match b[0] {
            "td" => &mut td,
            "r" => &mut rep,
            _ => return unclear(format!("unknown PWL parameter '{}'", w)),
        };
        if slot.is_some() || v < 0.0 {
            return unclear("repeated or negative PWL parameter");
        }
        *slot = Some(v);
    }
    if rep.is_some_and(|r| r != 0.0) {
        return unclear("PWL that repeats from the middle");
    }
    let text = words[..end].join(" ");
    let inner = match text.strip_prefix("PWL").map(|r| r.trim()).and_then(|r| r.strip_prefix('(')).and_then(|r| r.strip_suffix(')')) {
        Some(i) => i,
        None => return unclear(format!("odd PWL: '{}'", text)),
    };
    if inner.contains(['(', ')']) || inner.contains("PWL") {
        return unclear(format!("odd PWL: '{}'", text));
    }
    let v: Vec<&str> = inner.split(',').map(|s| s.trim()).collect();
    if v.iter().any(|s| s.contains(' ')) {
        return unclear(format!("odd PWL: '{}'", text));
    }
    let nums: Vec<Out<f64>> = v.iter().map(|s| number(s)).collect();
    if nums.iter().any(|n| matches!(n, Err(No::Unclear(_)))) {
        return unclear(format!("odd number in '{}'", text));
    }
    let n: Vec<f64> = nums.into_iter().collect::<Out<Vec<f64>>>()?;
    if n.len() % 2 == 1 {
        return refuse("PWL with a time without a value");
    }
    let pts: Vec<(f64, f64)> = n.chunks(2).map(|p| (p[0], p[1])).collect();
    if pts[0].0 < 0.0 || pts.windows(2).any(|p| p[1].0 <= p[0].0) {
        return unclear("PWL times not increasing");
    }
    Ok(Src::Pwl { pts, td: td.unwrap_or(0.0), rep: rep.is_some() })
}

/// An instantiation, the definition still by name
struct Call {
    name: String,
    def: String,
    conns: Vec<String>,
    ovr: Vec<(String, Expr)>,
}

enum Line {
    Item(Item),
    Call(Call),
}

#[derive(Default)]
struct Scope {
    lines: Vec<Line>,
    name: String,
    ports: Vec<String>,
    params: Vec<(String, Expr)>,
}

fn element(w: &[&str]) -> Out<Line> {
    let name = w[0].to_string();
    let kind = name.chars().next().unwrap();
    match kind {
        'V' | 'I' => {
            if w.len() < 4 {
                return refuse("source without a value");
            }
            let conns = vec![node(w[1])?, node(w[2])?];
            let src = if w[3].starts_with("SIN") {
                sin(&w[3..])?
            } else if w[3].starts_with("PWL") && kind == 'V' {
                pwl(&w[3..])?
            } else {
                let v = number(w[3])?;
                if w.len() > 4 {
                    return refuse("source with something after its value");
                }
                Src::Dc(v)
            };
            Ok(Line::Item(Item::Source { name, conns, text: w[3..].join(" "), src }))
        }
        'R' | 'C' | 'D' | 'E' | 'G' => {
            let n = if kind == 'E' || kind == 'G' { 4 } else { 2 };
            let vals = if kind == 'D' { 0 } else { 1 };
            if w.len() < 1 + n + vals {
                return refuse("element without a value");
            }
            let mut conns = vec![];
            for x in &w[1..1 + n] {
                conns.push(node(x)?);
            }
            let val = if vals == 1 { Some(expr(w[1 + n])?) } else { None };
            for x in &w[1 + n + vals..] {
                expr(x)?;
                return unclear("words after an element");
            }
            Ok(Line::Item(Item::Prim { name, kind, conns, val }))
        }
        'X' => {
            let mut end = w.len();
            let mut ovr: Vec<(String, Expr)> = vec![];
            while end > 1 && w[end - 1].contains('=') {
                end -= 1;
                let b: Vec<&str> = w[end].split('=').collect();
                if b.len() != 2 {
                    return refuse(format!("'{}' isn't name=value", w[end]));
                }
                let e = expr(b[1])?;
                if b[0].contains('.') {
                    return refuse("a parameter with a dot in its name");
                }
                if ovr.iter().any(|o| o.0 == b[0]) {
                    return unclear("parameter given twice");
                }
                ovr.push((b[0].to_string(), e));
            }
            if end < 2 {
                return refuse("instance of nothing");
            }
            if name.contains('.') {
                return refuse("an instance with a dot in its name");
            }
            let mut conns = vec![];
            for x in &w[1..end - 1] {
                conns.push(node(x)?);
            }
            ovr.reverse();
            Ok(Line::Call(Call { name, def: w[end - 1].to_string(), conns, ovr }))
        }
        _ => refuse(format!("unknown element '{}'", name)),
    }
}

/// The meaning of a deck without libraries
pub fn read(text: &str) -> Out<(Prog, Control)> {
    let mut c = Control { kind: None, tran: None, abstol: None, reltol: None, rmax: None };
    let mut scopes: Vec<Scope> = vec![Scope::default()];
    let mut cur = 0;
    let mut control = false;
    // a refusal holds whatever is unclear elsewhere, but what is unclear in one line
    // can make the rest mean something else
    let mut doubt: Option<No> = None;
    let mut bad: Option<No> = None;
    for line in text.lines().skip(1) {
        let code = line.split(';').next().unwrap_or("");
        let w: Vec<&str> = code.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('*') {
            continue;
        }
        let r: Out<()> = (|| {
            if control {
                match w[0] {
                    ".endc" => control = false,
                    "op" => c.kind = Some(Analysis::Op),
                    "tran" => {
                        c.kind = Some(Analysis::Tran);
                        if w.len() < 3 {
                            return refuse("tran without times");
                        }
                        let start = match w.get(3) {
                            Some(s) => Some(number(s)?),
                            None => None,
                        };
                        let (step, stop) = (number(w[1])?, number(w[2])?);
                        if step <= 0.0 || stop <= 0.0 {
                            return refuse("times of a transient must be positive");
                        }
                        c.tran = Some((step, stop, start.unwrap_or(0.0)));
                    }
                    "option" => {
                        if w.len() > 1 {
                            let s = w[1..].concat();
                            let b: Vec<&str> = s.split('=').collect();
                            if b.len() < 2 {
                                return refuse("option without =");
                            }
                            if b.len() > 2 {
                                return unclear("two options in a line");
                            }
                            if !["ABSTOL", "RELTOL", "RMAX"].contains(&b[0]) {
                                return Ok(());
                            }
                            if code.split('=').nth(1).unwrap_or("").split_whitespace().count() > 1 || w[1..].iter().take_while(|x| !x.contains('=')).count() > 1 {
                                return unclear("words in an option");
                            }
                            let v = number(b[1])?;
                            match b[0] {
                                "ABSTOL" => c.abstol = Some(v),
                                "RELTOL" => c.reltol = Some(v),
                                _ => {
                                    if v <= 0.0 {
                                        return refuse("RMAX must be positive");
                                    }
                                    c.rmax = Some(v)
                                }
                            }
                        }
                    }
                    _ => {}
                }
                return Ok(());
            }
            if !w[0].starts_with('.') {
                let l = element(&w)?;
                if let Line::Call(call) = &l {
                    if scopes[cur].lines.iter().any(|l| matches!(l, Line::Call(o) if o.name == call.name)) {
                        return refuse(format!("two instances '{}'", call.name));
                    }
                }
                scopes[cur].lines.push(l);
                return Ok(());
            }
            match w[0] {
                ".control" => {
                    control = true;
                }
                ".subckt" => {
                    if cur != 0 {
                        return refuse("definition in a definition");
                    }
                    if w.len() < 2 {
                        return refuse("definition without a name");
                    }
                    let mut s = Scope { name: w[1].to_string(), ..Scope::default() };
                    let mut odd: Option<No> = None;
                    for x in &w[2..] {
                        if x.contains('=') {
                            let b: Vec<&str> = x.split('=').collect();
                            if b.len() != 2 {
                                return refuse(format!("'{}' isn't name=value", x));
                            }
                            if b[0].contains('.') {
                                return refuse("a parameter with a dot in its name");
                            }
                            if s.params.iter().any(|p| p.0 == b[0]) {
                                odd = Some(No::Unclear("parameter defined twice".into()));
                            }
                            match expr(b[1]) {
                                Ok(e) => s.params.push((b[0].to_string(), e)),
                                Err(No::Refuse(r)) => return refuse(r),
                                Err(u) => odd = Some(u),
                            }
                        } else {
                            if !s.params.is_empty() {
                                odd = Some(No::Unclear("port after a parameter".into()));
                            }
                            let n = node(x)?;
                            if is_ground(&n) || s.ports.contains(&n) {
                                return refuse(format!("bad port '{}'", n));
                            }
                            s.ports.push(n);
                        }
                    }
                    if s.name.contains('=') || scopes.iter().any(|o| o.name == s.name) {
                        odd = Some(No::Unclear("odd or repeated name of a definition".into()));
                    }
                    scopes.push(s);
                    cur = scopes.len() - 1;
                    if let Some(u) = odd {
                        return Err(u);
                    }
                }
                ".ends" => {
                    if cur == 0 {
                        return refuse(".ends without .subckt");
                    }
                    let name = scopes[cur].name.clone();
                    cur = 0;
                    if w.len() > 2 || (w.len() == 2 && w[1] != name) {
                        return unclear("words after .ends");
                    }
                }
                ".lib" | ".include" => return unclear("library"),
                d => return refuse(format!("unknown command {}", d)),
            }
            Ok(())
        })();
        match r {
            Ok(()) => {}
            Err(No::Refuse(s)) => {
                // (a line that can't be read may be the end or the start of a block,
                // so from here on only that the deck is refused matters)
                if bad.is_none() && doubt.is_none() {
                    bad = Some(No::Refuse(format!("{}: '{}'", s, line)));
                }
            }
            Err(u) => {
                if doubt.is_none() {
                    doubt = Some(u)
                }
            }
        }
    }
    if let Some(b) = bad {
        return Err(b);
    }
    if let Some(d) = doubt {
        return Err(d);
    }
    if control {
        return refuse(".control without .endc");
    }
    if cur != 0 {
        return refuse(".subckt without .ends");
    }
    let p = resolve(&scopes)?;
    Ok((p, c))
}

/// Definitions by number, and everything that is used resolved
fn resolve(scopes: &[Scope]) -> Out<Prog> {
    let find = |name: &str| scopes.iter().skip(1).position(|s| s.name == name);
    // what is never instantiated isn't looked at
    let mut used = vec![false; scopes.len()];
    fn walk(scopes: &[Scope], k: usize, depth: usize, used: &mut [bool], names: &[String], budget: &mut usize) -> Out<()> {
        if depth > scopes.len() {
            return refuse("instance of itself");
        }
        used[k] = true;
        let known = |e: &Expr, names: &[String]| match e {
            Expr::Lit(_) => true,
            Expr::Id(s) => names.contains(s),
        };
        for l in &scopes[k].lines {
            if *budget == 0 {
                return unclear("too big");
            }
            *budget -= 1;
            match l {
                Line::Item(Item::Prim { name, val: Some(e), .. }) => {
                    if !known(e, names) {
                        return refuse(format!("unknown parameter in {}", name));
                    }
                }
                Line::Item(_) => {}
                Line::Call(c) => {
                    let d = match scopes.iter().skip(1).position(|s| s.name == c.def) {
                        Some(d) => d + 1,
                        None => return refuse(format!("no definition of {}", c.def)),
                    };
                    if c.conns.len() != scopes[d].ports.len() {
                        return refuse(format!("{} has {} connections", c.name, c.conns.len()));
                    }
                    for (n, e) in &c.ovr {
                        if !scopes[d].params.iter().any(|p| p.0 == *n) {
                            return unclear(format!("parameter {} isn't declared", n));
                        }
                        if !known(e, names) {
                            return refuse(format!("unknown parameter for {}", c.name));
                        }
                    }
                    for (n, e) in &scopes[d].params {
                        if !c.ovr.iter().any(|o| o.0 == *n) && !known(e, names) {
                            return refuse(format!("unknown parameter in a default of {}", c.def));
                        }
                    }
                    let inner: Vec<String> = scopes[d].params.iter().map(|p| p.0.clone()).collect();
                    walk(scopes, d, depth + 1, used, &inner, budget)?;
                }
            }
        }
        Ok(())
    }
    let mut budget = 3000;
    walk(scopes, 0, 0, &mut used, &[], &mut budget)?;
    let mut p = Prog::default();
    for (k, s) in scopes.iter().enumerate() {
        let mut items = vec![];
        if used[k] {
            for l in &s.lines {
                items.push(match l {
                    Line::Item(i) => i.clone(),
                    Line::Call(c) => Item::Inst { name: c.name.clone(), def: find(&c.def).unwrap(), conns: c.conns.clone(), ovr: c.ovr.clone() },
                });
            }
        }
        if k == 0 {
            p.top = items;
        } else {
            p.defs.push(Def { name: s.name.clone(), ports: s.ports.clone(), params: s.params.clone(), items });
        }
    }
    Ok(p)
}
