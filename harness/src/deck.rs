//! Generators: node names, sources, flat networks, hierarchical programs

use crate::model::{El, Flat, Src};
use crate::num::{self, number, number0, Val};
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ names

const TRICKY: [&str; 48] = [
    "1", "2", "10", "01", "00", "0a", "a0", "gnd1", "gnd_", "_gnd", "Gnd", "gND", "gNd", "GNd", "agnd", "GND1", "GNDA", "gndgnd",
    "g", "G", "n", "N", "n1", "N1", "_", "__", "0_", "_0", "000", "0x0", "R1", "X1", "V1", "out", "OUT", "Out", "in", "vdd", "VDD",
    "n10", "n100", "1n", "1k", "gn", "nd", "e", "a", "b",
];

/// `n` different node names, none of them ground
pub fn node_names(t: &mut Tape, n: usize) -> Vec<String> {
    let style = t.weighted(&[3, 3, 2, 2, 1]);
    let wide = style == 3 && t.chance(1, 2);
    // long names that differ only at the end, or only at the start
    let (tail, head) = if style == 4 && t.chance(1, 2) { (t.usize(10, 80), 0) } else { (0, if style == 4 { t.usize(10, 80) } else { 0 }) };
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut out = vec![];
    for k in 0..n {
        let mut s = match style {
            0 => format!("{}", k + 1),
            1 => format!("n{}", k + 1),
            2 => t.pick(&TRICKY).to_string(),
            4 => format!("{}{}{}", "the_node_".repeat(10)[..head].to_owned(), k + 1, &"_of_node".repeat(10)[..tail]),
            _ => {
                let len = t.usize(1, 6);
                (0..len)
                    .map(|_| *t.pick(if wide { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_" as &[u8] } else { b"abxyzABXYZ019_gndGND" }) as char)
                    .collect()
            }
        };
        while seen.contains(&s) || is_ground(&s) {
            s.push(*t.pick(&['_', '1', 'a', 'Z']));
        }
        seen.insert(s.clone());
        out.push(s);
    }
    out
}

pub fn is_ground(s: &str) -> bool {
    s == "0" || s == "gnd" || s == "GND"
}

pub fn ground(t: &mut Tape) -> String {
    t.pick(&["0", "gnd", "GND"]).to_string()
}

/// Name for an element of the given kind; different from those in `seen` except
/// rarely when `dups` is set
pub fn el_name(t: &mut Tape, letter: char, seen: &mut BTreeSet<String>, dups: bool) -> String {
    let mut s = match t.weighted(&[10, 4, 2, 1]) {
        3 => {
            let n = t.usize(1, 4);
            let tail: String = (0..n).map(|_| *t.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") as char).collect();
            format!("{}{}", letter, tail)
        }
        0 => format!("{}{}", letter, seen.len() + 1),
        1 => format!("{}{}", letter, t.pick(&["a", "load", "1_2", "R", "x", "_", "gnd", "11", "1", "SIN", "PWL"])),
        _ => letter.to_string(),
    };
    if !(dups && t.chance(1, 4)) {
        while seen.contains(&s) {
            s.push(*t.pick(&['a', '1', '_', 'X']));
        }
    }
    seen.insert(s.clone());
    s
}

// ---------------------------------------------------------------- sources

/// Ranges (powers of ten) for generated values
#[derive(Clone, Copy, Debug)]
pub struct Scale {
    pub r: (i32, i32),
    pub c: (i32, i32),
    pub v: (i32, i32),
    pub i: (i32, i32),
    pub g: (i32, i32),
    pub k: (i32, i32),
    /// time scale of sine periods and PWL points
    pub t: (i32, i32),
}

pub fn scale(t: &mut Tape) -> Scale {
    let z = t.int(-1, 6) as i32;
    let wide = t.chance(1, 4);
    let tt = if t.chance(1, 10) { t.int(-16, -10) } else { t.int(-9, 0) } as i32;
    let mut s = Scale {
        r: (z, z + 2),
        c: (tt - z - 2, tt - z + 1),
        v: (-1, 2),
        i: (-z - 2, -z + 1),
        g: (-z - 2, -z),
        k: (-2, 2),
        t: (tt - 1, tt + 2),
    };
    if wide {
        s.r = (-3, 8);
        s.v = (-6, 3);
        s.i = (-9, 1);
        s.g = (-8, 0);
        s.k = (-4, 4);
        s.c = if tt < -9 { (tt - 6, tt + 6) } else { (-15, -3) };
    }
    s
}

fn paren_list(t: &mut Tape, head: &str, items: &[String], commas: bool) -> String {
    let mut s = head.to_string();
    let sp = |t: &mut Tape| if t.chance(1, 3) { " ".to_string() } else { String::new() };
    s += &sp(t);
    s.push('(');
    s += &sp(t);
    for (k, it) in items.iter().enumerate() {
        if k > 0 {
            if commas {
                s += &sp(t);
                s.push(',');
                s += &sp(t);
            } else if t.chance(1, 4) {
                s += ", ";
            } else if t.chance(1, 6) {
                s.push(',');
            } else {
                s.push(' ');
            }
        }
        s += it;
    }
    s += &sp(t);
    s.push(')');
    s
}

pub fn sin_src(t: &mut Tape, amp: (i32, i32), sc: &Scale) -> (String, Src) {
    let vo = number0(t, amp.0, amp.1, true);
    let va = number0(t, amp.0, amp.1, true);
    let backwards = t.chance(1, 20);
    let f = number0(t, -sc.t.1, -sc.t.0 + 1, backwards);
    let items = [vo.text.clone(), va.text.clone(), f.text.clone()];
    (paren_list(t, "SIN", &items, false), Src::Sin { vo: vo.val, va: va.val, freq: f.val })
}

pub fn pwl_src(t: &mut Tape, amp: (i32, i32), sc: &Scale) -> (String, Src) {
    let n = if t.chance(1, 30) { t.usize(7, 60) } else { t.usize(1, 6) };
    let unit_e = t.int(sc.t.0 as i64, sc.t.1 as i64 - 1) as i32;
    let mut pts = vec![];
    let mut items = vec![];
    // times are integers on a grid, so that the same breakpoints can be hit exactly
    let mut ticks: i64 = if t.chance(3, 4) { 0 } else { t.int(1, 30) };
    for k in 0..n {
        if k > 0 {
            ticks += t.int(1, 40);
        }
        let tm = if ticks == 0 {
            Val { text: "0".into(), val: 0.0 }
        } else {
            num::notate(t, false, &ticks.to_string(), unit_e - 1)
        };
        let v = number0(t, amp.0, amp.1, true);
        pts.push((tm.val, v.val));
        items.push(tm.text);
        items.push(v.text);
    }
    let mut s = paren_list(t, "PWL", &items, true);
    let mut td = 0.0;
    let mut rep = false;
    let ticks_td = t.int(1, 50);
    let has_td = t.chance(1, 3);
    let has_rep = pts[n - 1].0 > 0.0 && t.chance(1, 3);
    let mut opts = vec![];
    if has_td {
        let v = num::notate(t, false, &ticks_td.to_string(), unit_e - 1);
        td = v.val;
        opts.push(format!("td={}", v.text));
    }
    if has_rep {
        rep = true;
        opts.push("r=0".to_string());
    }
    if opts.len() == 2 && t.chance(1, 2) {
        opts.swap(0, 1);
    }
    for o in opts {
        s.push(' ');
        s += &o;
    }
    (s, Src::Pwl { pts, td, rep })
}

/// A source waveform; `vary` allows time-varying ones
pub fn src(t: &mut Tape, amp: (i32, i32), sc: &Scale, vary: bool, voltage: bool) -> (String, Src) {
    let k = if vary { t.weighted(&[4, 3, if voltage { 3 } else { 0 }]) } else { 0 };
    match k {
        0 => {
            let v = number0(t, amp.0, amp.1, true);
            (v.text.clone(), Src::Dc(v.val))
        }
        1 => sin_src(t, amp, sc),
        _ => pwl_src(t, amp, sc),
    }
}

// --------------------------------------------------------------- flat nets

#[derive(Clone, Copy, Debug)]
pub struct NetOpts {
    pub nodes: (usize, usize),
    pub caps: (usize, usize),
    pub diodes: (usize, usize),
    pub dep: bool,
    pub vary: bool,
    pub vsrc: bool,
    pub isrc: bool,
    /// some resistors (and capacitors) may be negative
    pub neg: bool,
    /// a node that only capacitors (and perhaps a current source) are connected to
    pub island: bool,
}

impl NetOpts {
    pub fn linear() -> NetOpts {
        NetOpts { nodes: (1, 12), caps: (0, 0), diodes: (0, 0), dep: true, vary: true, vsrc: true, isrc: true, neg: false, island: false }
    }
}

/// A flat network with its deck lines
#[derive(Clone, Debug)]
pub struct Net {
    pub flat: Flat,
    pub names: Vec<String>,
    pub lines: Vec<String>,
    /// the element names, as in the lines
    pub idents: Vec<String>,
    /// nodes that nothing is connected to, each registered before the node of that
    /// number (only where the circuit is built with the library API)
    pub spare: Vec<(usize, String)>,
}

impl Net {
    pub fn name_lists(&self) -> Vec<Vec<String>> {
        self.names.iter().map(|n| vec![n.clone()]).collect()
    }
    pub fn deck(&self, control: &str) -> String {
        format!("* generated\n{}\n.control\n{}\n.endc\n", self.lines.join("\n"), control)
    }
}

/// A number that is positive, or negative
fn number_signed(t: &mut Tape, lo: i32, hi: i32, minus: bool) -> Val {
    let mut v = number(t, lo, hi, false);
    if minus {
        v.text = format!("-{}", v.text.trim_start_matches('+'));
        v.val = -v.val;
    }
    v
}

/// A network in which every node has a path to ground through resistors and
/// voltage sources, and no loop of voltage sources
pub fn net(t: &mut Tape, o: &NetOpts, sc: &Scale) -> Net {
    let n = 1 + t.usize(o.nodes.0, o.nodes.1);
    let mut parts: Vec<(El, String)> = vec![]; // element and its value text
    let neg = o.neg && t.chance(1, 2);
    let resistor = |t: &mut Tape| {
        let minus = neg && t.chance(1, 4);
        number_signed(t, sc.r.0, sc.r.1, minus)
    };

    for k in 1..n {
        let other = t.usize(0, k - 1);
        let (a, b) = if t.chance(1, 2) { (k, other) } else { (other, k) };
        let kind = t.weighted(&[6, if o.vsrc { 3 } else { 0 }, if o.dep && n > 2 { 1 } else { 0 }]);
        match kind {
            0 => {
                let r = resistor(t);
                parts.push((El::R { a, b, v: r.val }, r.text));
            }
            1 => {
                let (s, w) = src(t, sc.v, sc, o.vary, true);
                parts.push((El::V { p: a, n: b, s: w }, s));
            }
            _ => {
                let kk = number0(t, sc.k.0, sc.k.1, true);
                let (cp, cn) = (t.usize(0, n - 1), t.usize(0, n - 1));
                parts.push((El::E { p: a, n: b, cp, cn, k: kk.val }, kk.text));
            }
        }
    }
    let extra = t.usize(0, n + 2);
    for _ in 0..extra {
        let (a, b) = (t.usize(0, n - 1), t.usize(0, n - 1));
        let kind = t.weighted(&[4, if o.isrc { 3 } else { 0 }, if o.dep { 2 } else { 0 }]);
        match kind {
            0 => {
                let r = resistor(t);
                parts.push((El::R { a, b, v: r.val }, r.text));
            }
            1 => {
                let (s, w) = src(t, sc.i, sc, o.vary, false);
                parts.push((El::I { p: a, n: b, s: w }, s));
            }
            _ => {
                let k = number0(t, sc.g.0, sc.g.1, true);
                let (cp, cn) = (t.usize(0, n - 1), t.usize(0, n - 1));
                parts.push((El::G { p: a, n: b, cp, cn, k: k.val }, k.text));
            }
        }
    }
    for _ in 0..t.usize(o.caps.0, o.caps.1) {
        let (a, b) = (t.usize(0, n - 1), t.usize(0, n - 1));
        let minus = neg && t.chance(1, 8);
        let c = number_signed(t, sc.c.0, sc.c.1, minus);
        parts.push((El::C { a, b, v: c.val }, c.text));
    }
    for _ in 0..t.usize(o.diodes.0, o.diodes.1) {
        let (a, b) = (t.usize(0, n - 1), t.usize(0, n - 1));
        parts.push((El::D { p: a, n: b, isat: 1e-9, vt: 0.0 }, String::new()));
    }
    if !o.island {
        return finish(t, n, parts);
    }
    for _ in 0..t.usize(1, 3) {
        let c = number(t, sc.c.0, sc.c.1, false);
        let b = t.usize(0, n - 1);
        let (a, b) = if t.chance(1, 2) { (n, b) } else { (b, n) };
        parts.push((El::C { a, b, v: c.val }, c.text));
    }
    if t.chance(1, 2) {
        let (s, w) = src(t, sc.i, sc, o.vary, false);
        let b = t.usize(0, n - 1);
        parts.push((El::I { p: n, n: b, s: w }, s));
    }
    if o.dep && t.chance(1, 2) {
        let k = number0(t, sc.g.0, sc.g.1, true);
        let (a, b) = (t.usize(0, n - 1), t.usize(0, n - 1));
        parts.push((El::G { p: a, n: b, cp: n, cn: t.usize(0, n - 1), k: k.val }, k.text));
    }
    finish(t, n + 1, parts)
}

/// Shuffle elements, name everything and write the lines
pub fn finish(t: &mut Tape, n: usize, parts: Vec<(El, String)>) -> Net {
    let order = if t.chance(1, 2) { t.permutation(parts.len()) } else { (0..parts.len()).collect() };
    let mut names = vec!["0".to_string()];
    names.extend(node_names(t, n - 1));
    let mut seen = BTreeSet::new();
    let mut lines = vec![];
    let mut els = vec![];
    let mut idents = vec![];
    for j in order {
        let (el, text) = &parts[j];
        let name = el_name(t, el.letter(), &mut seen, true);
        let mut line = name.clone();
        idents.push(name);
        for k in el.nodes() {
            line.push(' ');
            line += &if k == 0 { ground(t) } else { names[k].clone() };
        }
        if !text.is_empty() {
            line.push(' ');
            line += text;
        }
        lines.push(line);
        els.push(el.clone());
    }
    let mut spare = vec![];
    if t.chance(1, 5) {
        for j in 0..t.usize(1, 3) {
            spare.push((t.usize(1, n), format!("spare{}", j)));
        }
    }
    Net { flat: Flat { n, els }, names, lines, idents, spare }
}

// -------------------------------------------------------------- hierarchy

#[derive(Clone, Debug)]
pub enum Expr {
    Lit(Val),
    Id(String),
}

impl Expr {
    pub fn text(&self) -> String {
        match self {
            Expr::Lit(v) => v.text.clone(),
            Expr::Id(s) => format!("{{{}}}", s),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Item {
    /// R, C, D, E or G
    Prim { name: String, kind: char, conns: Vec<String>, val: Option<Expr> },
    /// V or I
    Source { name: String, conns: Vec<String>, text: String, src: Src },
    Inst { name: String, def: usize, conns: Vec<String>, ovr: Vec<(String, Expr)> },
}

#[derive(Clone, Debug, Default)]
pub struct Def {
    pub name: String,
    pub ports: Vec<String>,
    pub params: Vec<(String, Expr)>,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub top: Vec<Item>,
    pub defs: Vec<Def>,
}

impl Item {
    pub fn line(&self, p: &Prog) -> String {
        match self {
            Item::Prim { name, conns, val, .. } => {
                let mut s = format!("{} {}", name, conns.join(" "));
                if let Some(v) = val {
                    s += &format!(" {}", v.text());
                }
                s
            }
            Item::Source { name, conns, text, .. } => format!("{} {} {}", name, conns.join(" "), text),
            Item::Inst { name, def, conns, ovr } => {
                let mut s = name.clone();
                for c in conns {
                    s += &format!(" {}", c);
                }
                s += &format!(" {}", p.defs[*def].name);
                for (n, e) in ovr {
                    s += &format!(" {}={}", n, e.text());
                }
                s
            }
        }
    }
}

impl Def {
    pub fn lines(&self, p: &Prog) -> Vec<String> {
        let mut s = format!(".subckt {}", self.name);
        for n in &self.ports {
            s += &format!(" {}", n);
        }
        for (n, e) in &self.params {
            s += &format!(" {}={}", n, e.text());
        }
        let mut v = vec![s];
        v.extend(self.items.iter().map(|i| i.line(p)));
        v.push(".ends".to_string());
        v
    }
}

impl Prog {
    pub fn blocks(&self) -> (Vec<String>, Vec<Vec<String>>) {
        (self.top.iter().map(|i| i.line(self)).collect(), self.defs.iter().map(|d| d.lines(self)).collect())
    }

    /// The deck with definitions and toplevel lines in the order `defs_first`
    /// asks for
    pub fn deck(&self, t: &mut Tape, control: &[String]) -> String {
        let (top, defs) = self.blocks();
        let mut chunks: Vec<Vec<String>> = top.into_iter().map(|l| vec![l]).collect();
        // put every definition somewhere between the toplevel lines
        let style = t.weighted(&[2, 2, 2]);
        for d in defs {
            let at = match style {
                0 => chunks.len(),
                1 => 0,
                _ => t.usize(0, chunks.len()),
            };
            chunks.insert(at, d);
        }
        let mut ctrl = vec![".control".to_string()];
        ctrl.extend(control.iter().cloned());
        ctrl.push(".endc".to_string());
        let at = if t.chance(1, 5) { t.usize(0, chunks.len()) } else { chunks.len() };
        chunks.insert(at, ctrl);
        let mut s = String::from("generated deck\n");
        for c in chunks {
            for l in c {
                s += &l;
                s.push('\n');
            }
        }
        s
    }
}

/// A flattened program
#[derive(Clone, Debug, Default)]
pub struct Flattened {
    pub flat: Flat,
    /// full name of each element
    pub ids: Vec<String>,
    /// all the full names of each net, the one highest in the hierarchy first
    pub names: Vec<Vec<String>>,
    pub depth: usize,
    pub insts: usize,
    /// a value refers to a parameter its scope doesn't have
    pub missing: bool,
    /// parameter values by full name
    pub params: Vec<(String, f64)>,
}

/// Flatten by substitution: an independent implementation of what expansion means
pub fn flatten(p: &Prog, vt: f64) -> Flattened {
    let mut f = Flattened { names: vec![vec!["gnd".to_string()]], ..Default::default() };
    f.flat.n = 1;
    scope(p, &p.top, "", &mut BTreeMap::new(), &BTreeMap::new(), 0, &mut f, vt);
    f
}

#[allow(clippy::too_many_arguments)]
fn scope(
    p: &Prog,
    items: &[Item],
    prefix: &str,
    nets: &mut BTreeMap<String, usize>,
    params: &BTreeMap<String, f64>,
    depth: usize,
    f: &mut Flattened,
    vt: f64,
) {
    f.depth = f.depth.max(depth);
    fn net_of(name: &str, prefix: &str, nets: &mut BTreeMap<String, usize>, f: &mut Flattened) -> usize {
        if is_ground(name) {
            return 0;
        }
        if let Some(k) = nets.get(name) {
            return *k;
        }
        let k = f.flat.n;
        f.flat.n += 1;
        f.names.push(vec![format!("{}{}", prefix, name)]);
        nets.insert(name.to_string(), k);
        k
    }
    let known = |e: &Expr| match e {
        Expr::Lit(v) => Some(v.val),
        Expr::Id(s) => params.get(s).copied(),
    };
    let mut missing = false;
    let mut eval = |e: &Expr| {
        let v = known(e);
        missing |= v.is_none();
        v.unwrap_or(0.0)
    };
    for it in items {
        match it {
            Item::Prim { name, kind, conns, val } => {
                f.ids.push(format!("{}{}", prefix, name));
                let c: Vec<usize> = conns.iter().map(|n| net_of(n, prefix, nets, f)).collect();
                let v = val.as_ref().map(&mut eval).unwrap_or(0.0);
                f.flat.els.push(match kind {
                    'R' => El::R { a: c[0], b: c[1], v },
                    'C' => El::C { a: c[0], b: c[1], v },
                    'D' => El::D { p: c[0], n: c[1], isat: 1e-9, vt },
                    'E' => El::E { p: c[0], n: c[1], cp: c[2], cn: c[3], k: v },
                    _ => El::G { p: c[0], n: c[1], cp: c[2], cn: c[3], k: v },
                });
            }
            Item::Source { name, conns, src, .. } => {
                f.ids.push(format!("{}{}", prefix, name));
                let c: Vec<usize> = conns.iter().map(|n| net_of(n, prefix, nets, f)).collect();
                f.flat.els.push(if name.starts_with('V') {
                    El::V { p: c[0], n: c[1], s: src.clone() }
                } else {
                    El::I { p: c[0], n: c[1], s: src.clone() }
                });
            }
            Item::Inst { name, def, conns, ovr } => {
                f.insts += 1;
                let d = &p.defs[*def];
                let inner_prefix = format!("{}{}.", prefix, name);
                let mut inner: BTreeMap<String, usize> = BTreeMap::new();
                for (port, c) in d.ports.iter().zip(conns) {
                    let k = net_of(c, prefix, nets, f);
                    inner.insert(port.clone(), k);
                    f.names[k].push(format!("{}{}", inner_prefix, port));
                }
                let mut pv: BTreeMap<String, f64> = BTreeMap::new();
                for (n, e) in &d.params {
                    let o = ovr.iter().find(|(m, _)| m == n);
                    let v = eval(o.map(|(_, e)| e).unwrap_or(e));
                    pv.insert(n.clone(), v);
                    f.params.push((format!("{}{}", inner_prefix, n), v));
                }
                scope(p, &d.items, &inner_prefix, &mut inner, &pv, depth + 1, f, vt);
            }
        }
    }
    f.missing |= missing;
}

#[derive(Clone, Copy, Debug)]
pub struct ProgOpts {
    pub defs: (usize, usize),
    pub caps: bool,
    pub diodes: bool,
    pub dep: bool,
    pub sources: bool,
    pub vary: bool,
    pub params: usize,
    pub max_els: usize,
    pub dup_names: bool,
    /// parameters and values of any sign, and zero (decks that are read but not solved)
    pub any_value: bool,
}

const PNAMES: [&str; 14] = ["theResistanceOfTheFirstOfTheResistors", "theResistanceOfTheFirstOfTheResistors2", "r", "rr", "r1", "R", "c", "cval", "k", "x", "a1", "val", "rval", "n1"];
const DNAMES: [&str; 14] = ["a_low_pass_filter_of_the_first_order_with_a_load", "a_low_pass_filter_of_the_first_order_with_a_loader", "foo", "bar", "load", "sub1", "sub10", "sub", "R1", "amp", "X1", "fooo", "n1", "gnd_"];

/// A name of the list, not in `seen`; or one that is almost a name of `seen`
/// (without '_': an expression doesn't take it in a parameter's name)
fn fresh_name(t: &mut Tape, list: &[&str], seen: &[String]) -> String {
    if !seen.is_empty() && t.chance(1, 8) {
        let near = t.pick(seen).clone();
        let s: String = match t.usize(0, 4) {
            0 => near.to_uppercase(),
            1 => near.to_lowercase(),
            2 => near.chars().enumerate().map(|(k, c)| if k == 0 { if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect(),
            3 => format!("{}{}", near, t.pick(&["0", "1", "a", "x", "Q"])),
            _ => format!("{}{}", t.pick(&["q", "a", "x", "r", "R"]), near),
        };
        if !seen.contains(&s) {
            return s;
        }
    }
    let mut k = t.usize(0, list.len() - 1);
    let mut s = list[k].to_string();
    let mut tries = 0;
    while seen.contains(&s) {
        k = (k + 1) % list.len();
        tries += 1;
        s = if tries < list.len() { list[k].to_string() } else { format!("{}{}", list[k], tries) };
    }
    s
}

/// An acyclic hierarchy in which every node has a resistive path to ground
pub fn prog(t: &mut Tape, o: &ProgOpts, sc: &Scale) -> Prog {
    let nd = if o.defs.1 >= 3 && t.chance(1, 40) { t.usize(6, 12) } else { t.usize(o.defs.0, o.defs.1) };
    let mut p = Prog::default();
    let mut dn: Vec<String> = vec![];
    while dn.len() < nd {
        let s = fresh_name(t, &DNAMES, &dn);
        dn.push(s);
    }
    // element count of one instance of each definition, to keep the total in bounds
    let mut cost: Vec<usize> = vec![];
    for d in 0..nd {
        let nports = if t.chance(1, 40) { t.usize(6, 20) } else { t.weighted(&[1, 3, 5, 3, 2, 1]) };
        let ports = node_names(t, nports);
        let mut params: Vec<(String, Expr)> = vec![];
        let np = if o.params > 0 && t.chance(1, 40) { t.usize(4, 12) } else { t.usize(0, o.params) };
        for _ in 0..np {
            let seen: Vec<String> = params.iter().map(|q| q.0.clone()).collect();
            params.push((fresh_name(t, &PNAMES, &seen), Expr::Lit(value_of(t, o, sc.r.0, sc.r.1, false))));
        }
        p.defs.push(Def { name: dn[d].clone(), ports, params, items: vec![] });
        let mut c = 0;
        let items = body(t, o, sc, &p, Some(d), &cost, &mut c);
        p.defs[d].items = items;
        cost.push(c);
    }
    let mut c = 0;
    p.top = body(t, o, sc, &p, None, &cost, &mut c);
    // defaults may also refer to parameters of whatever scope the definition is
    // instantiated in: only if all the instantiating scopes have such a parameter
    for d in 0..nd {
        for q in 0..p.defs[d].params.len() {
            if !t.chance(1, 4) {
                continue;
            }
            let pick = t.pick(&PNAMES).to_string();
            let used_at_top = p.top.iter().any(|i| matches!(i, Item::Inst { def, .. } if *def == d));
            let hosts: Vec<usize> = (0..nd)
                .filter(|h| p.defs[*h].items.iter().any(|i| matches!(i, Item::Inst { def, .. } if *def == d)))
                .collect();
            if !used_at_top && !hosts.is_empty() && hosts.iter().all(|h| p.defs[*h].params.iter().any(|x| x.0 == pick)) {
                p.defs[d].params[q].1 = Expr::Id(pick);
            }
        }
    }
    // the order in which the definitions are written is free
    if t.chance(1, 2) {
        let perm = t.permutation(nd);
        let mut inv = vec![0; nd];
        for (new, old) in perm.iter().enumerate() {
            inv[*old] = new;
        }
        let mut defs: Vec<Def> = perm.iter().map(|k| p.defs[*k].clone()).collect();
        for d in defs.iter_mut() {
            for i in d.items.iter_mut() {
                if let Item::Inst { def, .. } = i {
                    *def = inv[*def];
                }
            }
        }
        for i in p.top.iter_mut() {
            if let Item::Inst { def, .. } = i {
                *def = inv[*def];
            }
        }
        p.defs = defs;
    }
    p
}

fn value_of(t: &mut Tape, o: &ProgOpts, lo: i32, hi: i32, signed: bool) -> Val {
    if o.any_value {
        let signed = signed || t.chance(1, 4);
        num::number0(t, lo, hi, signed)
    } else {
        number(t, lo, hi, signed)
    }
}

fn body(t: &mut Tape, o: &ProgOpts, sc: &Scale, p: &Prog, d: Option<usize>, cost: &[usize], total: &mut usize) -> Vec<Item> {
    let ports: Vec<String> = d.map(|d| p.defs[d].ports.clone()).unwrap_or_default();
    let params: Vec<String> = d.map(|d| p.defs[d].params.iter().map(|q| q.0.clone()).collect()).unwrap_or_default();
    let n_local = t.usize(if d.is_some() { 0 } else { 1 }, 4);
    let mut nodes = ports;
    // local names may repeat those of other scopes, but not of this one
    for mut s in node_names(t, n_local) {
        while nodes.contains(&s) {
            s.push('q');
        }
        nodes.push(s);
    }
    let mut items: Vec<Item> = vec![];
    let mut seen = BTreeSet::new();
    let value = |t: &mut Tape, lo: i32, hi: i32, signed: bool| -> Expr {
        if !params.is_empty() && t.chance(1, 2) {
            Expr::Id(t.pick(&params).clone())
        } else {
            Expr::Lit(value_of(t, o, lo, hi, signed))
        }
    };
    let any = |t: &mut Tape, nodes: &[String]| -> String {
        if nodes.is_empty() || t.chance(1, 6) {
            ground(t)
        } else {
            t.pick(nodes).clone()
        }
    };
    for k in 0..nodes.len() {
        let a = nodes[k].clone();
        let b = if k == 0 || t.chance(1, 4) { ground(t) } else { nodes[t.usize(0, k - 1)].clone() };
        let conns = if t.chance(1, 2) { vec![a, b] } else { vec![b, a] };
        let name = el_name(t, 'R', &mut seen, o.dup_names);
        let val = value(t, sc.r.0, sc.r.1, false);
        items.push(Item::Prim { name, kind: 'R', conns, val: Some(val) });
    }
    for _ in 0..t.usize(0, 4) {
        let kind = t.weighted(&[
            3,
            if o.caps { 2 } else { 0 },
            if o.diodes { 2 } else { 0 },
            if o.dep { 1 } else { 0 },
            if o.dep { 1 } else { 0 },
            if o.sources { 2 } else { 0 },
            if o.sources { 2 } else { 0 },
        ]);
        match kind {
            0 => {
                let val = Some(value(t, sc.r.0, sc.r.1, false));
                let conns = vec![any(t, &nodes), any(t, &nodes)];
                items.push(Item::Prim { name: el_name(t, 'R', &mut seen, o.dup_names), kind: 'R', conns, val });
            }
            1 => {
                let val = Some(value(t, sc.c.0, sc.c.1, false));
                let conns = vec![any(t, &nodes), any(t, &nodes)];
                items.push(Item::Prim { name: el_name(t, 'C', &mut seen, o.dup_names), kind: 'C', conns, val });
            }
            2 => {
                let conns = vec![any(t, &nodes), any(t, &nodes)];
                items.push(Item::Prim { name: el_name(t, 'D', &mut seen, o.dup_names), kind: 'D', conns, val: None });
            }
            3 => {
                // drives a node of its own, loaded by a resistor
                let own = fresh(t, &mut nodes);
                let conns = vec![own.clone(), any(t, &nodes[..nodes.len() - 1]), any(t, &nodes), any(t, &nodes)];
                let val = Some(value(t, sc.k.0, sc.k.1, true));
                items.push(Item::Prim { name: el_name(t, 'E', &mut seen, o.dup_names), kind: 'E', conns, val });
            }
            4 => {
                let conns = vec![any(t, &nodes), any(t, &nodes), any(t, &nodes), any(t, &nodes)];
                let val = Some(value(t, sc.g.0, sc.g.1, true));
                items.push(Item::Prim { name: el_name(t, 'G', &mut seen, o.dup_names), kind: 'G', conns, val });
            }
            5 => {
                let (text, s) = src(t, sc.i, sc, o.vary, false);
                let conns = vec![any(t, &nodes), any(t, &nodes)];
                items.push(Item::Source { name: el_name(t, 'I', &mut seen, o.dup_names), conns, text, src: s });
            }
            _ => {
                let own = fresh(t, &mut nodes);
                let other = any(t, &nodes[..nodes.len() - 1]);
                let conns = if t.chance(1, 2) { vec![own, other] } else { vec![other, own] };
                let (text, s) = src(t, sc.v, sc, o.vary, true);
                items.push(Item::Source { name: el_name(t, 'V', &mut seen, o.dup_names), conns, text, src: s });
            }
        }
    }
    *total += items.len();
    // instances of the definitions that are already complete
    if !cost.is_empty() {
        let want = if t.chance(1, 40) { t.usize(4, 12) } else { t.usize(if d.is_none() { 1 } else { 0 }, 3) };
        for j in 0..want {
            // mostly use the latest ones, to get deep hierarchies
            let def = if t.chance(1, 2) { cost.len() - 1 } else { t.usize(0, cost.len() - 1) };
            if *total + cost[def] > o.max_els && !(j == 0 && d.is_none()) {
                continue;
            }
            *total += cost[def];
            let dd = &p.defs[def];
            let conns: Vec<String> = dd
                .ports
                .iter()
                .map(|_| {
                    if t.chance(1, 8) {
                        ground(t)
                    } else if nodes.is_empty() {
                        "0".to_string()
                    } else {
                        t.pick(&nodes).clone()
                    }
                })
                .collect();
            let mut ovr = vec![];
            for (n, _) in &dd.params {
                if t.chance(1, 2) {
                    ovr.push((n.clone(), value(t, sc.r.0, sc.r.1, false)));
                }
            }
            if ovr.len() > 1 && t.chance(1, 2) {
                ovr.reverse();
            }
            let mut name = format!("X{}", if t.chance(2, 3) { (j + 1).to_string() } else { t.pick(&["a", "1", "_", "X1", "foo", "11", "gnd"]).to_string() });
            if t.chance(1, 12) {
                // a name that another instance has but for case or length
                let near: Vec<String> = seen.iter().filter(|s| s.starts_with('X')).cloned().collect();
                if !near.is_empty() {
                    let s = t.pick(&near).clone();
                    name = match t.below(3) {
                        0 => format!("X{}", s[1..].to_uppercase()),
                        1 => format!("X{}", s[1..].to_lowercase()),
                        _ => format!("{}0", s),
                    };
                }
            }
            while seen.contains(&name) {
                name.push('b');
            }
            seen.insert(name.clone());
            items.push(Item::Inst { name, def, conns, ovr });
        }
    }
    if t.chance(1, 3) {
        let perm = t.permutation(items.len());
        items = perm.iter().map(|k| items[*k].clone()).collect();
    }
    items
}

fn fresh(t: &mut Tape, nodes: &mut Vec<String>) -> String {
    let mut s = t.pick(&["drv", "s", "int", "d1"]).to_string();
    while nodes.contains(&s) {
        s.push('0');
    }
    nodes.push(s.clone());
    s
}

/// Source as text in full precision
pub fn src_text(s: &Src) -> String {
    match s {
        Src::Dc(v) => format!("{:e}", v),
        Src::Sin { vo, va, freq } => format!("SIN({:e} {:e} {:e})", vo, va, freq),
        Src::Pwl { pts, td, rep } => {
            let l: Vec<String> = pts.iter().map(|p| format!("{:e},{:e}", p.0, p.1)).collect();
            format!("PWL({}) td={:e}{}", l.join(","), td, if *rep { " r=0" } else { "" })
        }
    }
}

/// A circuit as a flat deck with nodes n1, n2, ... in full precision
pub fn flat_deck(f: &Flat, control: &str) -> String {
    let mut s = String::from("flat\n");
    for (j, el) in f.els.iter().enumerate() {
        s += &format!("{}{}", el.letter(), j);
        for k in el.nodes() {
            s += &if k == 0 { " 0".to_string() } else { format!(" n{}", k) };
        }
        match el {
            El::R { v, .. } | El::C { v, .. } => s += &format!(" {:e}", v),
            El::E { k, .. } | El::G { k, .. } => s += &format!(" {:e}", k),
            El::V { s: w, .. } | El::I { s: w, .. } => s += &format!(" {}", src_text(w)),
            El::D { .. } => {}
        }
        s.push('\n');
    }
    s += &format!(".control\n{}\n.endc\n", control);
    s
}

pub fn flat_names(n: usize) -> Vec<Vec<String>> {
    (0..n).map(|k| vec![if k == 0 { "0".to_string() } else { format!("n{}", k) }]).collect()
}
