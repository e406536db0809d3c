//! C29: whole runs of the program on circuits of practical use, varied

use super::*;
use crate::deck::{flatten, is_ground};
use crate::model::check;
use crate::props::{cli, wave};
use crate::refread::{self, No};
use crate::run::{Res, Verdict};
use crate::{ensure, fail, num};
use std::collections::BTreeSet;

pub const C29: Prop = Prop {
    id: "C29",
    rule: "a waveform file of at least five rows that were all checked, in which some node moves by more than 1 mV",
    quick: 30000,
    thorough: 300000,
    f: c29,
};

/// The circuits that come with the program (rectifiers, amplifiers, filters, a drum
/// machine), without comments and control block, and how long a step suits them
const DECKS: &[(&str, f64)] = &[
    (include_str!("../../decks/diff_opamp.spi"), 1e-5),
    (include_str!("../../decks/dm_trigger.spi"), 1e-6),
    (include_str!("../../decks/fullwave_rectifier.spi"), 1e-5),
    (include_str!("../../decks/kick_drum.spi"), 1e-5),
    (include_str!("../../decks/multilevel_subckt_fullwave_rectifier.spi"), 1e-5),
    (include_str!("../../decks/named_fullwave_rectifier.spi"), 1e-5),
    (include_str!("../../decks/opamp_basic.spi"), 1e-5),
    (include_str!("../../decks/opamp_v_basic.spi"), 1e-5),
    (include_str!("../../decks/param_fullwave_rectifier.spi"), 1e-5),
    (include_str!("../../decks/stacked_vsin.spi"), 1e-5),
    (include_str!("../../decks/subckt_fullwave_rectifier.spi"), 1e-5),
    (include_str!("../../decks/test_bridge_loaded_sine.spi"), 1e-5),
    (include_str!("../../decks/test_dc_bridge_p.spi"), 1e-5),
    (include_str!("../../decks/test_ir_drev.spi"), 1e-5),
    (include_str!("../../decks/test_ird.spi"), 1e-5),
    (include_str!("../../decks/test_irrc.spi"), 1e-6),
    (include_str!("../../decks/test_irrc_hpf.spi"), 1e-6),
    (include_str!("../../decks/test_irrrr.spi"), 1e-6),
    (include_str!("../../decks/test_vvrrr.spi"), 1e-6),
    (include_str!("../../decks/v_pwl.spi"), 1e-7),
    (include_str!("../../decks/vc_vs_cs.spi"), 1e-5),
    (include_str!("../../decks/vc_vs_cs_basic.spi"), 1e-5),
];

/// Lines of the scope that line `k` is in
fn scope_of(lines: &[String], k: usize) -> (usize, usize, bool) {
    let (mut from, mut inside) = (0, false);
    for (j, l) in lines.iter().enumerate() {
        if l.starts_with(".subckt") {
            if j > k {
                break;
            }
            (from, inside) = (j, true);
        } else if l.starts_with(".ends") && j >= k && inside {
            return (from, j + 1, true);
        } else if l.starts_with(".ends") {
            inside = false;
        }
    }
    (0, lines.len(), false)
}

fn arity(l: &str) -> usize {
    match l.chars().next() {
        Some('R' | 'C' | 'D' | 'V' | 'I') => 2,
        Some('E' | 'G') => 4,
        _ => 0,
    }
}

/// The nodes of the scope of line `k`
fn nodes(lines: &[String], k: usize) -> Vec<String> {
    let (from, to, inside) = scope_of(lines, k);
    let mut out: BTreeSet<String> = BTreeSet::new();
    let mut depth = 0;
    for l in &lines[from..to] {
        if l.starts_with(".ends") {
            depth -= 1;
            continue;
        }
        if l.starts_with(".subckt") {
            depth += 1;
            if inside {
                out.extend(l.split_whitespace().skip(2).filter(|w| !w.contains('=')).map(|s| s.to_string()));
            }
            continue;
        }
        if (depth > 0) != inside {
            continue;
        }
        let n = arity(l);
        out.extend(l.split_whitespace().skip(1).take(n).filter(|w| !is_ground(w)).map(|s| s.to_string()));
        if l.starts_with('X') {
            let w: Vec<&str> = l.split_whitespace().filter(|w| !w.contains('=')).collect();
            out.extend(w[1..w.len() - 1].iter().filter(|w| !is_ground(w)).map(|s| s.to_string()));
        }
    }
    out.into_iter().collect()
}

/// Some number in a text, replaced by one of about the same size
fn renumber(t: &mut Tape, l: &str) -> Option<String> {
    // where values may stand: after the nodes, or in brackets, or after a '='
    let words: Vec<(usize, &str)> = l.split([' ', '(', ')', ',', '=']).map(|w| (w.as_ptr() as usize - l.as_ptr() as usize, w)).collect();
    let first = match arity(l) {
        0 => 1,
        n => 1 + n,
    };
    let mut seen = 0;
    let mut at = vec![];
    for (o, w) in words {
        if w.is_empty() {
            continue;
        }
        let assigned = o > 0 && l.as_bytes()[o - 1] == b'=';
        let before = &l[..o];
        if seen >= first && (arity(l) > 0 || assigned) && !before.ends_with("r=") {
            if let Ok(v) = refread::number(w) {
                at.push((o, w.len(), v));
            }
        }
        seen += 1;
    }
    if at.is_empty() {
        return None;
    }
    let (o, n, v) = *t.pick(&at);
    let new = match t.weighted(&[4, 2, 1, 1]) {
        0 => v * [0.5, 0.8, 1.25, 2.0, 3.0, 10.0, 0.1][t.usize(0, 6)],
        1 => v * 10f64.powf(2.0 * t.unit() - 1.0),
        2 => {
            if l.starts_with(['R', 'C']) {
                v
            } else {
                -v
            }
        }
        _ => {
            if l.starts_with(['V', 'I', 'G']) {
                v + 1e-3
            } else {
                v * 1.001
            }
        }
    };
    Some(format!("{}{}{}", &l[..o], num::exact(new).text, &l[o + n..]))
}

fn vary(t: &mut Tape, lines: &mut Vec<String>) -> &'static str {
    let at = |t: &mut Tape, lines: &[String], f: &dyn Fn(&str) -> bool| -> Option<usize> {
        let v: Vec<usize> = (1..lines.len()).filter(|k| f(&lines[*k])).collect();
        if v.is_empty() {
            None
        } else {
            Some(*t.pick(&v))
        }
    };
    match t.weighted(&[6, 2, 3, 2, 2, 1]) {
        0 => {
            if let Some(k) = at(t, lines, &|l| !l.starts_with(".ends")) {
                if let Some(s) = renumber(t, &lines[k]) {
                    lines[k] = s;
                    return "a value changed";
                }
            }
        }
        1 => {
            // the other way round
            if let Some(k) = at(t, lines, &|l| arity(l) >= 2) {
                let mut w: Vec<String> = lines[k].split_whitespace().map(|s| s.to_string()).collect();
                w.swap(1, 2);
                lines[k] = w.join(" ");
                return "two nodes swapped";
            }
        }
        2 => {
            if let Some(k) = at(t, lines, &|l| arity(l) >= 2) {
                let mut n = nodes(lines, k);
                n.push("0".into());
                let a = t.pick(&n).clone();
                let b = t.pick(&n).clone();
                let name = format!("new{}", t.usize(0, 99));
                let v = 10f64.powi(t.int(-1, 2) as i32);
                let l = match t.weighted(&[3, 3, 3, 1]) {
                    0 => format!("R{} {} {} {}", name, a, b, num::exact(v * 1e3).text),
                    1 => format!("C{} {} {} {}", name, a, b, num::exact(v * 1e-8).text),
                    2 => format!("D{} {} {}", name, a, b),
                    _ => {
                        let c = t.pick(&n).clone();
                        let d = t.pick(&n).clone();
                        format!("G{} {} {} {} {} {}", name, a, b, c, d, num::exact(v * 1e-5).text)
                    }
                };
                lines.insert(k, l);
                return "an element more";
            }
        }
        3 => {
            // another instance
            if let Some(k) = at(t, lines, &|l| l.starts_with('X')) {
                let mut w: Vec<String> = lines[k].split_whitespace().map(|s| s.to_string()).collect();
                w[0] = format!("{}n{}", w[0], t.usize(0, 99));
                let n = nodes(lines, k);
                for j in 1..w.len() {
                    if w[j].contains('=') || w.get(j + 1).map_or(true, |x| x.contains('=')) {
                        break;
                    }
                    if t.chance(1, 3) {
                        w[j] = t.pick(&n).clone();
                    }
                }
                lines.insert(k, w.join(" "));
                return "an instance more";
            }
        }
        4 => {
            // a resistor in the way of a connection
            if let Some(k) = at(t, lines, &|l| arity(l) >= 2) {
                let mut w: Vec<String> = lines[k].split_whitespace().map(|s| s.to_string()).collect();
                let j = t.usize(1, 2);
                let name = format!("mid{}", t.usize(0, 99));
                let l = format!("R{} {} {} {}", name, w[j], name, num::exact(10f64.powi(t.int(0, 4) as i32)).text);
                w[j] = name;
                lines[k] = w.join(" ");
                lines.insert(k, l);
                return "a node more";
            }
        }
        _ => {
            if let Some(k) = at(t, lines, &|l| arity(l) >= 2 && !l.starts_with(['V', 'I'])) {
                lines.remove(k);
                return "an element less";
            }
        }
    }
    "nothing"
}

fn c29(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let (deck, h) = *t.pick(DECKS);
    let mut lines: Vec<String> = deck.lines().map(|s| s.split_whitespace().collect::<Vec<_>>().join(" ")).collect();
    ctx.label(&lines[0].clone());
    for _ in 0..t.weighted(&[1, 3, 3, 2, 1, 1]) {
        let what = vary(t, &mut lines);
        ctx.label(what);
    }
    let step = num::exact(h * 10f64.powf(t.unit() - 0.5));
    let rmax = *t.pick(&[5.0, 5.0, 1.0, 0.5]);
    let stop = num::exact(step.val * rmax * (2.0 + 98.0 * t.unit()));
    let mut control = vec![".control".to_string()];
    let mut options: Vec<String> = vec![];
    if rmax != 5.0 || t.chance(1, 4) {
        options.push(format!("option RMAX = {}", rmax));
    }
    let mut reltol = None;
    if t.chance(1, 3) {
        let r = *t.pick(&[1e-3, 1e-5, 1e-6]);
        options.push(format!("option RELTOL={:e}", r));
        reltol = Some(r);
    }
    let order = t.usize(0, options.len());
    options.insert(order, format!("tran {} {}", step.text, stop.text));
    control.extend(options);
    control.push(".endc".into());
    lines.extend(control);
    let whole = lines.join("\n") + "\n";
    // the definitions, and perhaps more, in a library
    let mut files: Vec<(String, String)> = vec![];
    let deck = if t.chance(1, 3) {
        let (mut top, mut lib) = (vec![], vec![]);
        let mut inside = false;
        let mut in_control = false;
        let elements = t.chance(1, 3);
        for (k, l) in lines.iter().enumerate() {
            inside |= l.starts_with(".subckt");
            in_control |= l.starts_with(".control");
            if k > 0 && (inside || (elements && !in_control && t.chance(1, 2))) {
                lib.push(l.clone());
            } else {
                top.push(l.clone());
            }
            inside &= !l.starts_with(".ends");
        }
        let at = t.usize(1, top.iter().position(|l| l.starts_with(".control")).unwrap_or(1));
        let dir = *t.pick(&["", "parts/"]);
        top.insert(at, format!(".lib {}x.lib all", dir));
        files.push((format!("{}x.lib", dir), format!("a library\n.lib none\nR1 1 2 3\n.endl\n.lib all\n{}\n.endl\n", lib.join("\n"))));
        ctx.label("with a library");
        top.join("\n") + "\n"
    } else {
        whole.clone()
    };
    ctx.show = deck.clone();
    for (name, text) in &files {
        ctx.show += &format!("\n--- {}\n{}", name, text);
    }

    let (p, c) = match refread::read(&whole) {
        Ok(x) => x,
        // (a definition that has come to use a node of its own only, or the like)
        Err(No::Refuse(_) | No::Unclear(_)) => return Ok(Verdict::Discard),
    };
    let vt = sim::thermal_voltage(27.0);
    let mut fl = flatten(&p, vt);
    set_vt(&mut fl.flat, vt);
    let flat = fl.flat;
    if !well_posed(&flat, Some(step.val * 0.25), 1e12) {
        return Ok(Verdict::Discard);
    }
    let Some((tstep, tstop, _)) = c.tran else { fail!("harness: no tran") };
    assert!(tstep == step.val && tstop == stop.val);

    let _ = std::fs::remove_dir_all(ctx.dir.join("waves"));
    for (name, text) in &files {
        sim::write_deck(ctx, name, text);
    }
    let path = sim::write_deck(ctx, "deck.spi", &deck);
    let d = sim::read_path(&path)?;
    let map = sim::match_up(&flat, &fl.names, &d.ckt)?;
    let (x0, st0) = sim::op(&d.ckt, &d.cfg)?;
    let found = st0.iterations <= d.cfg.ITL1 && x0.iter().all(|x| x.is_finite());

    let ran = cli::run(ctx, std::path::Path::new("deck.spi"))?;
    let files = cli::wave_files(&ctx.dir);
    ensure!(files.len() == 1, "{} waveform files (exit {:?}, signal {:?}):\n{}", files.len(), ran.code, ran.signal, ran.tail());
    let w = sim::parse_wave(&files[0])?;
    let col = wave::columns(&w, &fl.names, map.nsrc)?;
    ensure!(!w.t.is_empty() && w.t[0] == 0.0, "the first row isn't at time 0");
    ensure!(w.t.windows(2).all(|p| p[0] < p[1]), "the times don't go up: {:?}", w.t);
    let end = *w.t.last().unwrap();
    ensure!(end <= tstop, "the last row is at {:e}, after TSTOP", end);
    ensure!(end == tstop || ran.complains(), "the last row is at {:e}, TSTOP is {:e}, and there's no error message", end, tstop);
    let s: Vec<Sol> = w
        .x
        .iter()
        .map(|r| Sol { v: col.node.iter().map(|k| r[*k]).collect(), i: map.src.iter().map(|k| r[col.src[*k]]).collect() })
        .collect();
    let linear = count(&flat, 'D') == 0;
    let defaults = Configuration::new();
    let (reltol, vntol) = if linear { (0.0, 0.0) } else { (reltol.unwrap_or(defaults.RELTOL), defaults.VNTOL) };
    let mut moved = false;
    let mut checked = 0;
    for k in 0..s.len() {
        let mut at = At { t: w.t[k], prev: None, reltol, vntol };
        if k > 0 {
            at.prev = Some((&s[k - 1], w.t[k] - w.t[k - 1]));
            moved |= s[k].v.iter().zip(&s[0].v).any(|(a, b)| (a - b).abs() > 1e-3);
        } else if !found {
            continue;
        }
        if !linear && s[k].v.iter().any(|v| v.abs() * reltol > 30.0 * vt) {
            ctx.label("ran away");
            break;
        }
        let e = check(&flat, &s[k], &at).map_err(|e| format!("row {} of {} at {:e} s (prev {:?}): {}", k, s.len(), w.t[k], if k > 0 { Some(w.t[k - 1]) } else { None }, e))?;
        ctx.maximum("error/tolerance", e);
        checked += 1;
    }
    ctx.label(if end == tstop { "reached TSTOP" } else { "gave up early" });
    ctx.nontrivial = checked >= 5 && moved;
    Ok(Verdict::Pass)
}
