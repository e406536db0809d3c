//! C01, C02: operating points

use super::*;
use crate::deck::{self, net, scale, Net};
use crate::model::{check, solve, At, Src};
use crate::num::{self, close, number};
use crate::run::{Res, Verdict};
use crate::{ensure, fail};

pub const C01: Prop = Prop {
    id: "C01",
    rule: "at least two nodes besides ground, a source that isn't zero and a well-posed matrix (condition estimate below 1e9)",
    quick: 600000,
    thorough: 6000000,
    f: c01,
};

fn c01(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut sc = scale(t);
    // far away from the usual impedances the currents are lost in the rounding
    // allowed for: those circuits have to have the solution of the reference
    let far = t.chance(1, 5);
    let mut top = false;
    if far {
        let z = if t.chance(1, 4) { t.int(-9, -2) } else { t.int(6, 16) } as i32;
        sc.r = (z, z + 2);
        sc.v = (-1, 2);
        sc.k = (-2, 2);
        sc.i = (-z - 2, -z + 1);
        sc.g = (-z - 2, -z);
        top = z > 6;
    }
    let mut o = opts_small(t);
    o.caps = (0, 4);
    // (a controlled source that is driven through more than that is next to
    // the rounding of its own coefficients)
    o.dep = t.chance(2, 3) && !top;
    o.vary = t.chance(1, 2);
    o.neg = t.chance(1, 3) && !far;
    let api = t.chance(1, 2);
    let net = net(t, &o, &sc);
    let at = At::dc(0.0);
    let want = match solve(&net.flat, &at) {
        Some((s, cond)) if cond < if far { 1e6 } else { 1e9 } => s,
        _ => return Ok(Verdict::Discard),
    };
    let mut m = make(ctx, &net, "op", api)?;
    if api && t.chance(1, 4) {
        // the elements are all that says which nodes there are
        m.ckt.nodes.retain(|_, id| *id == 0);
        m.ckt.node_id_lut.clear();
        m.ckt.nid_next = t.usize(0, m.ckt.nid_next);
        ctx.label("nodes without names");
    }
    let (x, st) = sim::op(&m.ckt, &m.cfg)?;
    ensure!(st.iterations <= m.cfg.ITL1, "no operating point was found in {} iterations", st.iterations);
    let s = m.map.sol(&x)?;
    let worst = check(&net.flat, &s, &at)?;
    ctx.maximum("error/tolerance", worst);
    if far {
        // (what is left where large terms cancel is rounding)
        let (mut v0, mut g, mut i0, mut rmin) = (1e-3, 0.0f64, 0.0f64, f64::INFINITY);
        for el in &net.flat.els {
            match el {
                El::R { v, .. } => {
                    g += 1.0 / v;
                    rmin = rmin.min(*v);
                }
                El::I { s, .. } => i0 = i0.max(s.at(0.0).abs()),
                El::G { k, .. } => g += k.abs(),
                El::V { s, .. } => v0 = f64::max(v0, s.at(0.0).abs()),
                _ => {}
            }
        }
        if rmin.is_finite() {
            v0 = v0.max(i0 * rmin);
        }
        v0 = want.v.iter().fold(v0, |m, x| m.max(x.abs()));
        for (what, got, want, big) in [("voltages", &s.v, &want.v, v0), ("source currents", &s.i, &want.i, (v0 * g).max(i0).max(1e-300))] {
            let big = want.iter().fold(big, |m, x| m.max(x.abs()));
            let e = got.iter().zip(want).fold(0.0f64, |m, (x, y)| m.max((x - y).abs())) / big;
            ctx.maximum(&format!("difference from the reference solution, {}", what), e);
            ensure!(e <= 1e-6, "the {} are {:?}, the reference has {:?}", what, got, want);
        }
        ctx.label("unusual impedances");
    }
    kinds(ctx, &net.flat);
    if net.flat.n > 20 {
        ctx.label("more than 20 nodes");
    }
    ctx.nontrivial = net.flat.n > 2 && s.v.iter().chain(s.i.iter()).any(|x| *x != 0.0);
    Ok(Verdict::Pass)
}

pub const C02: Prop = Prop {
    id: "C02",
    rule: "a circuit with a diode whose operating point was reported as found and has some node away from 0 V",
    quick: 600000,
    thorough: 6000000,
    f: c02,
};

/// DC source, resistor and 1 to 3 diodes in series, in any order and direction
fn chain(t: &mut Tape) -> Net {
    let nd = t.usize(1, 3);
    let usual = t.chance(1, 2);
    let (v, r) = if usual {
        // a few volts and kiloohms
        let (v, r) = (t.int(1, 99), t.int(1, 100));
        let v = if t.chance(1, 2) { v } else { -v };
        (num::exact(v as f64 / 10.0), num::exact(r as f64 * 100.0))
    } else {
        (num::number0(t, -2, 3, true), number(t, 1, 6, false))
    };
    let forward = t.chance(2, 3);
    let mixed = t.chance(1, 3);
    let n = nd + 2;
    let r_at = t.usize(0, nd);
    let mut parts = vec![];
    let (p, q) = if t.chance(1, 2) { (1, 0) } else { (0, 1) };
    // polarity such that node 1 is at +-v
    parts.push((El::V { p, n: q, s: Src::Dc(v.val) }, v.text.clone()));
    let up = (p == 1) == (v.val >= 0.0); // node 1 is above ground
    for k in 0..=nd {
        let a = k + 1;
        let b = if k == nd { 0 } else { k + 2 };
        if k == r_at {
            parts.push((El::R { a, b, v: r.val }, r.text.clone()));
        } else {
            let f = if mixed { t.chance(1, 2) } else { forward };
            let (x, y) = if f == up { (a, b) } else { (b, a) };
            parts.push((El::D { p: x, n: y, isat: 1e-9, vt: 0.0 }, String::new()));
        }
    }
    deck::finish(t, n, parts)
}

fn c02(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let vt = sim::thermal_voltage(27.0);
    let is_chain = t.chance(2, 3);
    let api = t.chance(1, 3);
    let mut net = if is_chain {
        chain(t)
    } else {
        let sc = scale(t);
        let mut o = opts_small(t);
        o.nodes.1 = o.nodes.1.min(12);
        o.diodes = (1, 6);
        o.caps = (0, 2);
        o.dep = t.chance(1, 3);
        o.vary = t.chance(1, 4);
        net(t, &o, &sc)
    };
    set_vt(&mut net.flat, vt);
    let other = api && t.chance(1, 2);
    let tdegc = if other { other_diodes(t, &mut net.flat) } else { 27.0 };
    let tight = t.weighted(&[3, 1, 1]);
    // a circuit whose sources contradict each other has no operating point
    if !well_posed(&net.flat, None, 1e9) {
        return Ok(Verdict::Discard);
    }
    let control = match tight {
        0 => "op".to_string(),
        1 => "option RELTOL=1e-6\nop".to_string(),
        _ => "op\noption RELTOL = 1e-8\noption ABSTOL=1e-12".to_string(),
    };
    let mut m = make_at(ctx, &net, &control, api, tdegc)?;
    if api {
        m.cfg.RELTOL = [1e-4, 1e-6, 1e-8][tight];
    }
    let (x, st) = sim::op(&m.ckt, &m.cfg)?;
    let found = st.iterations <= m.cfg.ITL1 && x.iter().all(|x| x.is_finite());
    kinds(ctx, &net.flat);
    ctx.label(if found { "found" } else { "not found" });
    if is_chain {
        ctx.label("chain");
        ctx.maximum("iterations of a chain", st.iterations as f64);
        // (with diodes that only leak, and unequally, Newton's method can be slow)
        if tight == 0 && !other {
            ensure!(found, "no operating point was found for a source, a resistor and diodes in series ({} iterations): {:?}", st.iterations, x);
        }
    }
    if !found {
        return Ok(Verdict::Discard);
    }
    let s = m.map.sol(&x)?;
    let at = At { t: 0.0, prev: None, reltol: m.cfg.RELTOL, vntol: m.cfg.VNTOL };
    match check(&net.flat, &s, &at) {
        Ok(w) => ctx.maximum("error/tolerance", w),
        Err(e) => fail!("{} (found in {} iterations)", e, st.iterations),
    }
    ctx.nontrivial = s.v.iter().any(|x| x.abs() > 1e-6);
    Ok(Verdict::Pass)
}

pub const C24: Prop = Prop {
    id: "C24",
    rule: "a circuit whose equations (nearly) contradict each other or leave something undetermined: an ideal loop, cutset or island put into a circuit that is fine without",
    quick: 500000,
    thorough: 6000000,
    f: c24,
};

/// Put something into a circuit that makes its equations singular, or nearly.
/// `n` is the number of nodes, which may grow.
fn spoil(t: &mut Tape, n: &mut usize, parts: &mut Vec<(El, String)>) -> &'static str {
    let lit = |t: &mut Tape| {
        let k = t.int(-3, 5);
        let x = if k == 0 { 0.5 } else { k as f64 };
        (x, format!("{}", x))
    };
    let volt = |t: &mut Tape, p: usize, n: usize| {
        let (x, s) = lit(t);
        (El::V { p, n, s: Src::Dc(x) }, s)
    };
    let node = |t: &mut Tape, n: usize| t.usize(0, n - 1);
    match t.usize(0, 8) {
        0 => {
            // another source across one there is
            let there: Vec<(usize, usize)> = parts.iter().filter_map(|(e, _)| if let El::V { p, n, .. } | El::E { p, n, .. } = e { Some((*p, *n)) } else { None }).collect();
            let (p, q) = if there.is_empty() { (0, 0) } else { *t.pick(&there) };
            let (p, q) = if t.chance(1, 2) { (p, q) } else { (q, p) };
            parts.push(volt(t, p, q));
            "source across a source"
        }
        1 => {
            // a loop of sources
            let (a, b, c) = (node(t, *n), node(t, *n), node(t, *n));
            for (p, q) in [(a, b), (b, c), (c, a)] {
                parts.push(volt(t, p, q));
            }
            "loop of sources"
        }
        2 => {
            let a = node(t, *n);
            parts.push(volt(t, a, a));
            "source with its ends together"
        }
        3 => {
            // current into a node with nowhere to go
            let k = *n;
            *n += 1;
            let (x, s) = lit(t);
            let to = node(t, k);
            parts.push((El::I { p: k, n: to, s: Src::Dc(x) }, s));
            if t.chance(1, 2) {
                let (x, s) = lit(t);
                let to = node(t, k);
                parts.push((El::I { p: to, n: k, s: Src::Dc(x) }, s));
            }
            if t.chance(1, 3) {
                let to = node(t, k);
                parts.push((El::C { a: k, b: to, v: 1e-6 }, "1u".into()));
            }
            "node with only current sources"
        }
        4 => {
            // an island, tied to nothing
            let k = *n;
            *n += 2;
            let (r, s) = *t.pick(&[(1.0, "1"), (1024.0, "1024"), (1000.0, "1k")]);
            parts.push((El::R { a: k, b: k + 1, v: r }, s.into()));
            match t.usize(0, 3) {
                0 => parts.push(volt(t, k, k + 1)),
                1 => {
                    let (x, s) = lit(t);
                    parts.push((El::I { p: k, n: k + 1, s: Src::Dc(x) }, s));
                }
                2 => {
                    let (x, s) = lit(t);
                    parts.push((El::I { p: 0, n: k + 1, s: Src::Dc(x) }, s));
                }
                _ => {}
            }
            "island"
        }
        5 => {
            // output that is its own control
            let (a, b) = (node(t, *n), node(t, *n));
            let (k, s) = *t.pick(&[(1.0, "1"), (-1.0, "-1"), (2.0, "2")]);
            parts.push((El::E { p: a, n: b, cp: a, cn: b, k }, s.into()));
            "VCVS controlled by its own output"
        }
        6 => {
            // current source that cancels a resistor
            let k = *n;
            *n += 1;
            parts.push((El::R { a: k, b: 0, v: 4.0 }, "4".into()));
            parts.push((El::G { p: k, n: 0, cp: k, cn: 0, k: -0.25 }, "-0.25".into()));
            if t.chance(2, 3) {
                let (x, s) = lit(t);
                parts.push((El::I { p: 0, n: k, s: Src::Dc(x) }, s));
            }
            "VCCS that cancels a resistor"
        }
        7 => {
            // two sources pulling at an ideal amplifier's output
            let (a, b) = (node(t, *n), node(t, *n));
            let (c, d) = (node(t, *n), node(t, *n));
            parts.push((El::E { p: a, n: b, cp: c, cn: d, k: 2.0 }, "2".into()));
            parts.push(volt(t, a, b));
            "VCVS across a source"
        }
        _ => {
            let k = *n;
            *n += 1;
            let a = node(t, k);
            parts.push((El::C { a: k, b: a, v: 1e-6 }, "1u".into()));
            if t.chance(1, 2) {
                parts.push((El::C { a: k, b: 0, v: 2e-6 }, "2u".into()));
            }
            "node with only capacitors"
        }
    }
}

fn c24(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let mut o = opts_small(t);
    o.nodes.1 = o.nodes.1.min(6);
    o.caps = (0, 2);
    o.dep = t.chance(1, 3);
    o.vary = false;
    let api = t.chance(1, 2);
    let base = net(t, &o, &sc);
    // simple values in half of the cases: exact arithmetic, exact zeros
    let mut parts: Vec<(El, String)> = if t.chance(1, 2) {
        base.flat
            .els
            .iter()
            .map(|e| {
                let k = t.int(1, 4) as f64;
                let s = format!("{}", k);
                match e.clone() {
                    El::R { a, b, .. } => (El::R { a, b, v: k }, s),
                    El::C { a, b, .. } => (El::C { a, b, v: k }, s),
                    El::V { p, n, .. } => (El::V { p, n, s: Src::Dc(k) }, s),
                    El::I { p, n, .. } => (El::I { p, n, s: Src::Dc(k) }, s),
                    El::E { p, n, cp, cn, .. } => (El::E { p, n, cp, cn, k }, s),
                    El::G { p, n, cp, cn, .. } => (El::G { p, n, cp, cn, k }, s),
                    d => (d, String::new()),
                }
            })
            .collect()
    } else {
        base.flat.els.iter().cloned().zip(base.lines.iter().map(|l| l.split_whitespace().last().unwrap_or("").to_string())).collect()
    };
    let mut n = base.flat.n;
    let mut what = vec![];
    for _ in 0..1 + t.weighted(&[3, 1]) {
        what.push(spoil(t, &mut n, &mut parts));
    }
    let net = deck::finish(t, n, parts);
    let tran = t.chance(1, 2);
    let m = make(ctx, &net, if tran { "tran 1u 10u" } else { "op" }, api)?;
    for w in &what {
        ctx.label(w);
    }
    let (x, st) = sim::op(&m.ckt, &m.cfg)?;
    let found = st.iterations <= m.cfg.ITL1 && x.iter().all(|x| x.is_finite());
    ctx.label(if found { "operating point found" } else { "reported: no operating point" });
    if found {
        let s = m.map.sol(&x)?;
        let w = check(&net.flat, &s, &At::dc(0.0)).map_err(|e| format!("an operating point was reported for a circuit with {:?}, but {}", what, e))?;
        ctx.maximum("error/tolerance", w);
    }
    if tran {
        let mut cfg = m.cfg.clone();
        cfg.set_transient(10e-6, 1e-6, 0.0);
        let (w, st) = sim::tran(ctx, &m.ckt, &cfg)?;
        ctx.label(if close(st.end, cfg.TSTOP, 1e-9) { "transient done" } else { "transient given up" });
        for k in 1..w.t.len() {
            let (prev, now) = (m.map.sol(&w.x[k - 1])?, m.map.sol(&w.x[k])?);
            let dt = w.t[k] - w.t[k - 1];
            let at = At { t: w.t[k], prev: Some((&prev, dt)), reltol: 0.0, vntol: 0.0 };
            check(&net.flat, &now, &at).map_err(|e| format!("row {} at {:e} s of a circuit with {:?}: {}", k, w.t[k], what, e))?;
        }
    }
    ctx.nontrivial = match solve(&net.flat, &At::dc(0.0)) {
        Some((_, cond)) => cond > 1e9,
        None => true,
    };
    Ok(Verdict::Pass)
}
