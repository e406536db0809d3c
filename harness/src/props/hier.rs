//! C10 to C12: hierarchy, parameters, node names

use super::*;
use crate::deck::{self, flat_deck, flat_names, flatten, prog, scale, Def, Expr, Item, Prog, ProgOpts};
use crate::model::{check, rounding, solve, At, Src};
use crate::num;
use crate::run::{Res, Verdict};
use crate::{ensure, fail};

pub const C10: Prop = Prop {
    id: "C10",
    rule: "at least two subcircuit instances, one of which has a local node or is nested in another",
    quick: 200000,
    thorough: 1600000,
    f: c10,
};

fn c10(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let vt = sim::thermal_voltage(27.0);
    let sc = scale(t);
    let o = ProgOpts {
        defs: (1, 5),
        caps: t.chance(1, 2),
        diodes: t.chance(1, 4),
        dep: t.chance(1, 3),
        sources: t.chance(1, 2),
        vary: t.chance(1, 2),
        params: 3,
        max_els: if t.chance(1, 10) { 150 } else { 50 },
        dup_names: t.chance(1, 3),
        any_value: false,
    };
    let mut p = prog(t, &o, &sc);
    if t.chance(1, 5) {
        idle_port(t, &mut p);
    }
    let fl = flatten(&p, vt);
    let tran = t.chance(1, 4);
    let tm = tran::times(t, &sc);
    let mut control = if tran { tm.control() } else { "op".to_string() };
    if tran && tm.stop.val > 10.0 * tm.max_step(&Configuration::new()).min(tm.step.val) {
        control = format!("tran {} {}", tm.step.text, num::exact(tm.step.val * 10.0).text);
    }
    let text = p.deck(t, &control.lines().map(|s| s.to_string()).collect::<Vec<_>>());
    ctx.show = text.clone();
    let d = sim::read_text(ctx, &text)?;
    let map = sim::match_up(&fl.flat, &fl.names, &d.ckt)?;
    kinds(ctx, &fl.flat);
    ctx.maximum("depth", fl.depth as f64);
    ctx.maximum("instances", fl.insts as f64);
    ctx.maximum("elements", fl.flat.els.len() as f64);
    if fl.depth >= 2 {
        ctx.label("nested");
    }
    ctx.nontrivial = fl.insts >= 2 && (fl.depth >= 2 || fl.names.iter().any(|n| n[0].contains('.')));

    // the same voltages as the flat deck, which doesn't have the nodes that nothing
    // but unused ports are connected to
    let (mut fl, mut map) = (fl, map);
    let idle = unconnected(&mut fl, &mut map);
    if idle > 0 {
        ctx.label("has an unconnected node");
    }
    let linear = count(&fl.flat, 'D') == 0;
    let at = At::dc(0.0);
    if linear {
        let want = match solve(&fl.flat, &at) {
            Some((s, cond)) if cond < 1e9 => s,
            _ => return Ok(Verdict::Pass),
        };
        let (x, _) = sim::op(&d.ckt, &d.cfg)?;
        if x.iter().any(|x| !x.is_finite()) {
            // (that estimate is for scaled rows, the solver has them as they are:
            // huge and tiny conductances together can leave it a pivot of 0)
            let big = want.v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
            match rounding(&fl.flat, &at, &want) {
                Some(e) if (1..fl.flat.n).all(|k| e[k - 1] <= 1e-3 * big) => {}
                _ => {
                    ctx.label("decided by rounding");
                    return Ok(Verdict::Pass);
                }
            }
        }
        let s = map.sol(&x)?;
        check(&fl.flat, &s, &at).map_err(|e| format!("hierarchical deck: {}", e))?;
        ctx.label("operating point compared");
        let fdeck = sim::read_text(ctx, &flat_deck(&fl.flat, "op"))?;
        let fmap = sim::match_up(&fl.flat, &flat_names(fl.flat.n), &fdeck.ckt).map_err(|e| format!("flat deck: {}", e))?;
        let (y, _) = sim::op(&fdeck.ckt, &fdeck.cfg)?;
        let r = fmap.sol(&y)?;
        check(&fl.flat, &r, &at).map_err(|e| format!("flat deck: {}", e))?;
        let slack = match rounding(&fl.flat, &at, &s) {
            Some(e) => e,
            None => return Ok(Verdict::Pass),
        };
        let near = |a: f64, b: f64, e: f64| (a - b).abs() <= 2.0 * e + 1e-12 * a.abs().max(b.abs());
        for k in 1..fl.flat.n {
            ensure!(near(s.v[k], r.v[k], slack[k - 1]), "node {:?} is at {:e} V, in the flat deck at {:e} V (rounding: {:e})", fl.names[k], s.v[k], r.v[k], slack[k - 1]);
        }
        for k in 0..s.i.len() {
            let e = slack[fl.flat.n - 1 + k];
            ensure!(near(s.i[k], r.i[k], e), "source {} carries {:e} A, in the flat deck {:e} A (rounding: {:e})", k, s.i[k], r.i[k], e);
        }
        let big = s.v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        if (1..fl.flat.n).all(|k| slack[k - 1] <= 1e-6 * big) {
            ctx.label("compared to better than 1e-6");
        }
        if tran {
            let (w, _) = sim::tran(ctx, &d.ckt, &d.cfg)?;
            for k in 1..w.t.len() {
                let (a, b) = (map.sol(&w.x[k - 1])?, map.sol(&w.x[k])?);
                let at = At { t: w.t[k], prev: Some((&a, w.t[k] - w.t[k - 1])), reltol: 0.0, vntol: 0.0 };
                check(&fl.flat, &b, &at).map_err(|e| format!("transient row {}: {}", k, e))?;
            }
            ctx.label("transient checked");
        }
    } else {
        let (x, st) = sim::op(&d.ckt, &d.cfg)?;
        if well_posed(&fl.flat, None, 1e9) && st.iterations <= d.cfg.ITL1 && x.iter().all(|x| x.is_finite()) {
            let at = At { t: 0.0, prev: None, reltol: d.cfg.RELTOL, vntol: d.cfg.VNTOL };
            check(&fl.flat, &map.sol(&x)?, &at).map_err(|e| format!("hierarchical deck: {}", e))?;
            ctx.label("operating point checked");
        }
    }
    Ok(Verdict::Pass)
}

/// Give a definition a port that isn't used inside
fn idle_port(t: &mut Tape, p: &mut Prog) {
    let d = t.usize(0, p.defs.len() - 1);
    let at = t.usize(0, p.defs[d].ports.len());
    p.defs[d].ports.insert(at, "nc_port".into());
    let mut n = 0;
    for i in p.top.iter_mut().chain(p.defs.iter_mut().flat_map(|d| d.items.iter_mut())) {
        if let Item::Inst { def, conns, .. } = i {
            if *def == d {
                let to = if conns.is_empty() || t.chance(2, 3) { format!("nc_{}", n) } else { t.pick(conns).clone() };
                conns.insert(at, to);
                n += t.usize(0, 1);
            }
        }
    }
}

/// Take out the nodes without elements, and count them
fn unconnected(fl: &mut deck::Flattened, map: &mut sim::Map) -> usize {
    let mut on = vec![false; fl.flat.n];
    on[0] = true;
    for e in &fl.flat.els {
        e.nodes().iter().for_each(|k| on[*k] = true);
    }
    let mut to = vec![0; fl.flat.n];
    let mut n = 0;
    for k in 0..fl.flat.n {
        if on[k] {
            to[k] = n;
            fl.names.swap(n, k);
            map.node.swap(n, k);
            n += 1;
        }
    }
    let idle = fl.flat.n - n;
    fl.names.truncate(n);
    map.node.truncate(n);
    fl.flat.n = n;
    fl.flat.els = fl.flat.els.iter().map(|e| e.map_nodes(|k| to[k])).collect();
    idle
}

pub const C11: Prop = Prop {
    id: "C11",
    rule: "at least two instances of parametrized definitions, with an override or a value that refers to a parameter",
    quick: 250000,
    thorough: 2400000,
    f: c11,
};

/// Let some value be that of a parameter, whether or not there is such a
/// parameter in its scope
fn refer(t: &mut Tape, p: &mut Prog) -> bool {
    let names: Vec<String> = p.defs.iter().flat_map(|d| d.params.iter().map(|q| q.0.clone())).collect();
    let mut places: Vec<&mut Expr> = vec![];
    let items = p.top.iter_mut();
    for d in p.defs.iter_mut() {
        places.extend(d.params.iter_mut().map(|q| &mut q.1));
        places.extend(d.items.iter_mut().flat_map(values));
    }
    places.extend(items.flat_map(values));
    if names.is_empty() || places.is_empty() {
        return false;
    }
    let k = t.usize(0, places.len() - 1);
    *places[k] = Expr::Id(t.pick(&names).clone());
    true
}

fn values(i: &mut Item) -> Vec<&mut Expr> {
    match i {
        Item::Prim { val: Some(e), .. } => vec![e],
        Item::Inst { ovr, .. } => ovr.iter_mut().map(|o| &mut o.1).collect(),
        _ => vec![],
    }
}

fn c11(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let o = ProgOpts {
        defs: (1, 5),
        caps: true,
        diodes: false,
        dep: t.chance(1, 2),
        sources: t.chance(1, 4),
        vary: false,
        params: 5,
        max_els: 60,
        dup_names: t.chance(1, 2),
        any_value: t.chance(1, 2),
    };
    let mut p = prog(t, &o, &sc);
    let moved = t.chance(1, 4) && refer(t, &mut p);
    let fl = flatten(&p, 0.0);
    let text = p.deck(t, &["op".to_string()]);
    ctx.show = text.clone();
    if fl.missing {
        // the name means something in other scopes at most
        ctx.label("name that isn't in scope");
        ensure!(sim::read_text(ctx, &text).is_err(), "a value that names no parameter of its scope is accepted");
        ctx.nontrivial = fl.insts >= 2 && fl.params.len() >= 2;
        return Ok(Verdict::Pass);
    }
    if moved {
        ctx.label("another name that is in scope");
    }
    let d = sim::read_text(ctx, &text)?;
    sim::match_up(&fl.flat, &fl.names, &d.ckt)?;
    for (name, v) in &fl.params {
        match d.ckt.get_param_value(name) {
            Some(x) => ensure!(num::close(x, *v, 1e-14), "parameter {} is {:e}, it should be {:e}", name, x, v),
            None => fail!("parameter {} has no value, it should be {:e}", name, v),
        }
    }
    let mut refs = 0;
    let mut ovrs = 0;
    for d in &p.defs {
        for i in &d.items {
            match i {
                Item::Prim { val: Some(Expr::Id(_)), .. } => refs += 1,
                Item::Inst { ovr, .. } => {
                    ovrs += ovr.len();
                    refs += ovr.iter().filter(|o| matches!(o.1, Expr::Id(_))).count();
                }
                _ => {}
            }
        }
        if d.params.iter().any(|q| matches!(q.1, Expr::Id(_))) {
            ctx.label("default refers to another parameter");
        }
    }
    for i in &p.top {
        if let Item::Inst { ovr, .. } = i {
            ovrs += ovr.len();
        }
    }
    if fl.depth >= 3 {
        ctx.label("three levels or more");
    }
    ctx.maximum("parameters resolved", fl.params.len() as f64);
    ctx.nontrivial = fl.insts >= 2 && !fl.params.is_empty() && ovrs + refs > 0;
    Ok(Verdict::Pass)
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "at least four different node names, two of them alike (differing in case, or in a digit, or close to a ground name), or a ground alias in use",
    quick: 400000,
    thorough: 5000000,
    f: c12,
};

/// A pool of names with near misses of one another
fn alike(t: &mut Tape) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for base in deck::node_names(t, 3) {
        v.push(base.clone());
        for _ in 0..t.usize(0, 2) {
            let s = match t.weighted(&[2, 2, 1, 1, 1, 1]) {
                0 => base.to_uppercase(),
                1 => base.to_lowercase(),
                2 => format!("{}0", base),
                3 => format!("0{}", base),
                4 => format!("{}_", base),
                _ => base.chars().rev().collect(),
            };
            if !deck::is_ground(&s) {
                v.push(s);
            }
        }
    }
    for _ in 0..t.usize(0, 4) {
        v.push(t.pick(&["Gnd", "gNd", "GNd", "gnD", "gnd0", "0gnd", "00", "gnd_", "_0", "GND_GND", "0_", "agnd", "000", "g", "nd", "0e0", "0k"]).to_string());
    }
    v.sort();
    v.dedup();
    v
}

fn loose(t: &mut Tape, pool: &[String], seen: &mut std::collections::BTreeSet<String>) -> Item {
    let conn = |t: &mut Tape| if t.chance(1, 5) { deck::ground(t) } else { t.pick(pool).clone() };
    let kind = *t.pick(&['R', 'C', 'D', 'E', 'G', 'V', 'I', 'S', 'T', 'P']);
    let four = matches!(kind, 'E' | 'G');
    let conns: Vec<String> = (0..if four { 4 } else { 2 }).map(|_| conn(t)).collect();
    match kind {
        'V' | 'I' | 'S' | 'T' | 'P' => {
            let letter = if matches!(kind, 'I' | 'T') { 'I' } else { 'V' };
            let (text, src) = match kind {
                'V' | 'I' => ("1.5".to_string(), Src::Dc(1.5)),
                'S' | 'T' => ("SIN(0 1 2)".to_string(), Src::Sin { vo: 0.0, va: 1.0, freq: 2.0 }),
                _ => ("PWL(0,1,2,3)".to_string(), Src::Pwl { pts: vec![(0.0, 1.0), (2.0, 3.0)], td: 0.0, rep: false }),
            };
            Item::Source { name: deck::el_name(t, letter, seen, true), conns, text, src }
        }
        k => {
            let val = if k == 'D' { None } else { Some(Expr::Lit(num::number(t, 0, 3, false))) };
            Item::Prim { name: deck::el_name(t, k, seen, true), kind: k, conns, val }
        }
    }
}

fn c12(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let pool = alike(t);
    let inner_pool = if t.chance(1, 2) { pool.clone() } else { alike(t) };
    let mut p = Prog::default();
    let hier = t.chance(1, 2);
    let mut grounds = false;
    if hier {
        let mut seen = Default::default();
        let np = t.usize(0, inner_pool.len().min(3));
        let perm = t.permutation(inner_pool.len());
        let ports: Vec<String> = perm.iter().take(np).map(|k| inner_pool[*k].clone()).collect();
        let mut items = vec![];
        for _ in 0..t.usize(1, 8) {
            items.push(loose(t, &inner_pool, &mut seen));
        }
        p.defs.push(Def { name: "sub".into(), ports, params: vec![], items });
    }
    let mut seen = Default::default();
    for _ in 0..t.usize(1, 14) {
        p.top.push(loose(t, &pool, &mut seen));
    }
    if hier {
        for j in 0..t.usize(1, 3) {
            let conns = p.defs[0].ports.iter().map(|_| if t.chance(1, 5) { deck::ground(t) } else { t.pick(&pool).clone() }).collect();
            let base = t.pick(&["X", "Xgnd", "X0", "XA", "Xa"]);
            let at = t.usize(0, p.top.len());
            p.top.insert(at, Item::Inst { name: format!("{}{}", base, j), def: 0, conns, ovr: vec![] });
        }
    }
    for i in p.top.iter().chain(p.defs.iter().flat_map(|d| d.items.iter())) {
        let (Item::Prim { conns, .. } | Item::Source { conns, .. } | Item::Inst { conns, .. }) = i;
        grounds |= conns.iter().any(|c| deck::is_ground(c));
    }
    let mut fl = flatten(&p, 0.0);
    let text = p.deck(t, &["op".to_string()]);
    ctx.show = text.clone();
    let d = sim::read_text(ctx, &text)?;
    for a in ["0", "GND", "gnd"] {
        fl.names[0].push(a.to_string());
    }
    sim::match_up(&fl.flat, &fl.names, &d.ckt)?;
    let tops: Vec<&String> = fl.names.iter().skip(1).map(|n| &n[0]).collect();
    let near = tops.iter().any(|a| tops.iter().any(|b| a != b && a.eq_ignore_ascii_case(b)) || a.to_lowercase().contains("gnd") || a.contains('0'));
    if near {
        ctx.label("names that are alike");
    }
    if grounds {
        ctx.label("ground alias used");
    }
    ctx.nontrivial = fl.flat.n > 4 && (near || grounds);
    Ok(Verdict::Pass)
}
