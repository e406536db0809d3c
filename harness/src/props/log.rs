//! C28: what the program says about the circuit and the run

use super::*;
use crate::deck::{flatten, prog, scale, ProgOpts};
use crate::model::Src;
use crate::num;
use crate::props::cli;
use crate::run::{Res, Verdict};
use crate::{ensure, fail};
use std::collections::BTreeMap;
use std::path::Path;

pub const C28: Prop = Prop {
    id: "C28",
    rule: "a hierarchical deck with at least six elements of three kinds, whose listing and messages were compared",
    quick: 40000,
    thorough: 400000,
    f: c28,
};

/// An element as listed: type, nodes, numbers, name
type Listed = (String, Vec<usize>, Vec<f64>, String);

/// `R a:1 b:2 1000 Ohms (X1.R1)`
fn parse_el(s: &str) -> Result<Listed, String> {
    let mut nodes = vec![];
    let mut nums = vec![];
    let mut name = String::new();
    let (head, tail) = match s.rfind(" (") {
        Some(k) if s.ends_with(')') => (&s[..k], &s[k + 2..s.len() - 1]),
        _ => (s, ""),
    };
    if !tail.is_empty() {
        name = tail.to_string();
    }
    let head = head.replace("sin(2pi", " ").replace([')', '*', '+', '='], " ");
    let mut w = head.split_whitespace();
    let kind = w.next().unwrap_or("").to_string();
    for x in w {
        if let Some((l, n)) = x.split_once(':') {
            if !["a", "b", "p", "n", "cp", "cn"].contains(&l) {
                return Err(format!("terminal '{}' in '{}'", l, s));
            }
            nodes.push(n.parse::<usize>().map_err(|_| format!("node number '{}' in '{}'", n, s))?);
        } else if let Ok(v) = x.parse::<f64>() {
            nums.push(v);
        }
    }
    Ok((kind, nodes, nums, name))
}

fn close(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| num::close(*x, *y, 1e-14))
}

fn number_after(out: &str, before: &str) -> Option<f64> {
    out.lines().rev().find_map(|l| l.trim().strip_prefix(before).and_then(|r| r.split_whitespace().next()).and_then(|x| x.parse().ok()))
}

fn c28(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let o = ProgOpts {
        defs: (0, 4),
        caps: true,
        diodes: t.chance(1, 3),
        dep: t.chance(1, 2),
        sources: true,
        vary: t.chance(1, 2),
        params: 3,
        max_els: if t.chance(1, 6) { 100 } else { 40 },
        dup_names: t.chance(1, 3),
        any_value: t.chance(1, 4),
    };
    let p = prog(t, &o, &sc);
    let step = num::number(t, sc.t.0, sc.t.1, false);
    let stop = num::exact(step.val * t.int(1, 10) as f64);
    let analysis = t.weighted(&[6, 2, 1]);
    let mut control = vec![];
    let mut start = 0.0;
    match analysis {
        0 => {
            let mut s = format!("tran {} {}", step.text, stop.text);
            if t.chance(1, 3) {
                let from = num::exact(stop.val * t.int(0, 4) as f64 / 4.0);
                s += &format!(" {}", from.text);
                start = from.val;
            }
            control.push(s)
        }
        1 => control.push("op".to_string()),
        _ => {}
    }
    if analysis != 0 || t.chance(1, 3) {
        control.push(t.pick(&["option RELTOL=1e-3", "option ABSTOL=1n", "echo", "option FOO=1"]).to_string());
    }
    // what the options are, at some point
    let (mut reltol, mut abstol, mut rmax) = (1e-4, 1e-9, 5.0);
    let mut listed_options = None;
    if t.chance(1, 3) {
        control.retain(|c| !c.starts_with("option"));
        let mut more = vec![];
        for _ in 0..t.usize(0, 3) {
            let v = num::number(t, -4, -2, false);
            match t.below(3) {
                0 => {
                    more.push(format!("option RELTOL = {}", v.text));
                    reltol = v.val;
                }
                1 => {
                    more.push(format!("option ABSTOL={}", v.text));
                    abstol = v.val;
                }
                _ => {
                    let v = num::number(t, -2, 2, false);
                    more.push(format!("option RMAX ={}", v.text));
                    rmax = v.val;
                }
            }
        }
        more.push("option".to_string());
        listed_options = Some((reltol, abstol, rmax));
        if t.chance(1, 3) {
            more.push("option RELTOL = 2e-3".into());
        }
        control.extend(more);
    }
    let text = p.deck(t, &control);
    ctx.show = text.clone();
    sim::write_deck(ctx, "deck.spi", &text);
    let r = cli::run(ctx, Path::new("deck.spi"))?;
    let waves = cli::wave_files(&ctx.dir);
    let rows = if waves.len() == 1 { Some(sim::parse_wave(&waves[0])?.t) } else { None };
    cli::clear(ctx);
    let out = &r.out;
    ensure!(r.code == Some(0), "the program ended with {:?}, {:?}:\n{}", r.code, r.signal, r.tail());

    // the last list of elements and of nodes
    let lines: Vec<&str> = out.lines().collect();
    let end = match lines.iter().rposition(|l| l.starts_with(" node: ")) {
        Some(k) => k + 1,
        None => fail!("no nodes are listed:\n{}", r.tail()),
    };
    let mid = lines[..end].iter().rposition(|l| !l.starts_with(" node: ")).map(|k| k + 1).unwrap_or(0);
    let begin = lines[..mid].iter().rposition(|l| !l.starts_with(" elem: ")).map(|k| k + 1).unwrap_or(0);

    let fl = flatten(&p, 0.03);
    let mut ids: BTreeMap<String, usize> = BTreeMap::new();
    for l in &lines[mid..end] {
        let l = l.trim_start_matches(" node: ");
        let (name, id) = match l.rsplit_once(" (").and_then(|(n, i)| i.strip_suffix(')').map(|i| (n, i))) {
            Some((n, i)) => (n.to_string(), i.parse::<usize>().map_err(|_| Stop::Fail(format!("odd line '{}'", l)))?),
            None => fail!("odd line '{}'", l),
        };
        ensure!(ids.insert(name, id).is_none(), "a name is listed twice: '{}'", l);
    }
    let mut num_of = vec![usize::MAX; fl.flat.n];
    let mut back: BTreeMap<usize, usize> = BTreeMap::new();
    let mut total = 0;
    for (k, names) in fl.names.iter().enumerate() {
        for nm in names {
            total += 1;
            let id = match ids.get(nm) {
                Some(id) => *id,
                None => fail!("node '{}' isn't listed", nm),
            };
            ensure!(id < fl.flat.n, "node '{}' has number {} of {}", nm, id, fl.flat.n);
            ensure!(num_of[k] == usize::MAX || num_of[k] == id, "node '{}' has another number than '{}'", nm, names[0]);
            num_of[k] = id;
        }
        if let Some(other) = back.insert(num_of[k], k) {
            fail!("'{}' and '{}' have the same number", fl.names[other][0], names[0]);
        }
    }
    ensure!(num_of[0] == 0, "ground has number {}", num_of[0]);
    ensure!(total == ids.len(), "{} names are listed, {} expected", ids.len(), total);

    let mut have: Vec<Listed> = vec![];
    for l in &lines[begin..mid] {
        have.push(parse_el(l.trim_start_matches(" elem: ")).map_err(Stop::Fail)?);
    }
    let mut want: Vec<Listed> = vec![];
    for (e, name) in fl.flat.els.iter().zip(&fl.ids) {
        let nodes: Vec<usize> = e.nodes().iter().map(|k| num_of[*k]).collect();
        let (kind, nums, named) = match e {
            El::R { v, .. } => ("R", vec![*v], true),
            El::C { v, .. } => ("C", vec![*v], true),
            // i_sat is written as I_sat=1e-9
            El::D { isat, .. } => ("D", vec![*isat], true),
            El::E { k, .. } => ("VCVS", vec![*k], true),
            El::G { k, .. } => ("VCCS", vec![*k], true),
            El::V { s, .. } | El::I { s, .. } => {
                let v = matches!(e, El::V { .. });
                match s {
                    Src::Dc(x) => (if v { "V" } else { "I" }, vec![*x], false),
                    Src::Sin { vo, va, freq } => (if v { "Vsin" } else { "Isin" }, vec![*vo, *va, *freq], false),
                    Src::Pwl { .. } => (if v { "Vpwl" } else { "Ipwl" }, vec![], false),
                }
            }
        };
        want.push((kind.to_string(), nodes, nums, if named { name.clone() } else { String::new() }));
    }
    let mut used = vec![false; have.len()];
    for w in &want {
        match (0..have.len()).find(|&k| !used[k] && have[k].0 == w.0 && have[k].1 == w.1 && have[k].3 == w.3 && close(&have[k].2, &w.2)) {
            Some(k) => used[k] = true,
            None => {
                let near: Vec<&Listed> = have.iter().filter(|h| h.0 == w.0 && (h.1 == w.1 || h.3 == w.3)).take(4).collect();
                fail!("element {:?} isn't listed; similar ones: {:?}", w, near);
            }
        }
    }
    if let Some(k) = used.iter().position(|u| !u) {
        fail!("an element is listed that isn't in the deck: {:?}", have[k]);
    }

    // options as they stood
    if let Some((reltol, abstol, rmax)) = listed_options {
        let mut found = BTreeMap::new();
        for l in &lines {
            if let Some(x) = l.trim().strip_prefix("*OPTION*") {
                for s in x.split(';') {
                    if let Some((n, v)) = s.split_once('=') {
                        found.insert(n.trim().to_string(), v.trim().parse::<f64>().unwrap_or(f64::NAN));
                    }
                }
            }
        }
        // tolerances are written with twelve decimals
        for (n, v, tol) in [("RELTOL", reltol, 6e-13), ("ABSTOL", abstol, 6e-13), ("RMAX", rmax, 1e-14 * rmax), ("ITL3", 6.0, 0.0), ("ITL4", 50.0, 0.0), ("FS", 0.25, 0.0), ("FT", 0.25, 0.0), ("RMIN", 1e-3, 0.0), ("VNTOL", 1e-6, 6e-13)] {
            match found.get(n) {
                Some(x) => ensure!((x - v).abs() <= tol, "option {} is listed as {:e}, it is {:e}", n, x, v),
                None => fail!("option {} isn't listed:\n{}", n, r.tail()),
            }
        }
        ctx.label("options listed");
    }

    // the run
    let done = lines.iter().any(|l| l.trim() == "*INFO* Done");
    let later = &lines[end..].join("\n");
    if analysis == 2 {
        ensure!(!done && later.contains("*ERROR*"), "no analysis, and nothing is said about it:\n{}", r.tail());
        ensure!(waves.is_empty(), "no analysis, and there is a waveform file");
        ctx.label("no analysis");
    } else {
        ensure!(done, "an analysis that isn't reported as done:\n{}", r.tail());
        let nodes = number_after(later, "*INFO* There are");
        let nv = fl.flat.els.iter().filter(|e| e.is_vtype()).count();
        // nodes first, voltage sources second
        let counts: Vec<f64> = later.lines().filter_map(|l| l.strip_prefix("*INFO* There are ").and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok())).collect();
        ensure!(counts == vec![fl.flat.n as f64, nv as f64], "{} nodes and {} voltage sources are reported as {:?} ({:?})", fl.flat.n, nv, counts, nodes);
        ctx.label(if analysis == 0 { "transient" } else { "operating point" });
    }
    if analysis == 0 {
        let ended = match number_after(later, "*INFO* Finished at time") {
            Some(x) => x,
            None => fail!("the end of the transient isn't reported:\n{}", r.tail()),
        };
        let stopped = later.contains("*ERROR* bad stuff") || later.contains("*ERROR* Internal") || later.contains("*ERROR* There was");
        ensure!(stopped || num::close(ended, stop.val, 1e-15), "the end is reported as {:e} of {:e}, without an error", ended, stop.val);
        ensure!(!stopped || ended < stop.val, "an error is reported, and the end as {:e} of {:e}", ended, stop.val);
        let cfg = later.lines().find_map(|l| l.strip_prefix("*CONFIG* TIME "));
        let v: Vec<f64> = cfg.unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
        ensure!(
            v.len() == 3 && num::close(v[0], start, 1e-15) && num::close(v[1], stop.val, 1e-15) && (v[2] - step.val).abs() < 6e-13 + 1e-15 * step.val,
            "the times are reported as {:?}, they are {:e} to {:e} by {:e}",
            cfg,
            start,
            stop.val,
            step.val
        );
        ensure!(waves.len() == 1, "{} waveform files", waves.len());
        let named = later.lines().find_map(|l| l.strip_prefix("*INFO* Dumping into file "));
        ensure!(named.map(|n| ctx.dir.join(n.trim())) == Some(waves[0].clone()), "the waveforms are in {:?}, said to be in {:?}", waves[0], named);
        let last = rows.and_then(|t| t.last().copied()).unwrap_or(f64::NAN);
        ensure!(last == ended || ended < start && last == 0.0, "the last row is at {:e}, the end is reported as {:e}", last, ended);
        if stopped {
            ctx.label("stopped early");
        }
    }
    kinds(ctx, &fl.flat);
    let kinds_n: std::collections::BTreeSet<char> = fl.flat.els.iter().map(|e| e.letter()).collect();
    ctx.nontrivial = fl.insts >= 1 && fl.flat.els.len() >= 6 && kinds_n.len() >= 3;
    Ok(Verdict::Pass)
}
