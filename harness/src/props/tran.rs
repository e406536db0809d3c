//! C05 to C09: transient analyses

use super::*;
use crate::deck::{net, scale, Scale};
use crate::model::{check, solve, At, Sol, Src};
use crate::num::{self, close, number, Val};
use crate::run::{Res, Verdict};
use crate::sim::Wave;
use crate::{ensure, fail};

/// Analysis times
pub struct Times {
    pub step: Val,
    pub stop: Val,
    pub start: Option<Val>,
    pub rmax: Option<Val>,
}

impl Times {
    pub fn control(&self) -> String {
        let mut s = String::new();
        if let Some(r) = &self.rmax {
            s += &format!("option RMAX={}\n", r.text);
        }
        s += &format!("tran {} {}", self.step.text, self.stop.text);
        if let Some(x) = &self.start {
            s += &format!(" {}", x.text);
        }
        s
    }
    pub fn put(&self, cfg: &mut Configuration) {
        cfg.set_transient(self.stop.val, self.step.val, self.start.as_ref().map(|x| x.val).unwrap_or(0.0));
        if let Some(r) = &self.rmax {
            cfg.RMAX = r.val;
        }
    }
    pub fn max_step(&self, cfg: &Configuration) -> f64 {
        self.step.val * cfg.RMAX
    }
}

pub fn times(t: &mut Tape, sc: &Scale) -> Times {
    let step = number(t, sc.t.0 - 1, sc.t.0 + 1, false);
    // now and then thousands of rows
    let long = t.chance(1, 400);
    let ratio = match t.weighted(&[4, 2, 1]) {
        _ if long => (10f64).powf(2.0 + 2.3 * t.unit()).round(),
        0 => t.int(2, 40) as f64,
        1 => 1.0 + 60.0 * t.unit(),
        _ => 0.05 + t.unit(),
    };
    let rmax = if t.chance(1, 3) {
        Some(match t.weighted(&[2, 2, 1]) {
            0 => Val { text: "1".into(), val: 1.0 },
            1 => num::notate(t, false, "5", -1),
            _ => number(t, -1, 2, false),
        })
    } else {
        None
    };
    let ratio = match &rmax {
        Some(r) if long && ratio / r.val > 20000.0 => r.val * 20000.0,
        Some(r) if !long && ratio / r.val > 100.0 => r.val * 100.0,
        _ => ratio,
    };
    let stop = num::exact(step.val * ratio);
    Times { step, stop, start: None, rmax }
}

fn sols(map: &Map, w: &Wave) -> Result<Vec<Sol>, String> {
    w.x.iter().map(|r| map.sol(r)).collect()
}

pub fn tran_api_or_deck(ctx: &mut Ctx, net: &Net, tm: &Times, api: bool) -> Result<Made, Stop> {
    let mut m = make(ctx, net, &tm.control(), api)?;
    if api {
        tm.put(&mut m.cfg);
    }
    Ok(m)
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "at least four rows, a capacitor between different nodes or a varying source, and some voltage that changes",
    quick: 300000,
    thorough: 2400000,
    f: c05,
};

fn c05(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let mut o = opts_small(t);
    o.nodes.1 = o.nodes.1.min(16);
    o.caps = (0, 6);
    o.dep = t.chance(1, 2);
    o.neg = t.chance(1, 4);
    let api = t.chance(1, 3);
    o.island = t.chance(1, 12);
    let net = net(t, &o, &sc);
    if !o.island {
        match solve(&net.flat, &At::dc(0.0)) {
            Some((_, cond)) if cond < 1e9 => {}
            _ => return Ok(Verdict::Discard),
        }
    }
    let tm = times(t, &sc);
    if o.island {
        // the operating point says nothing about that node, the steps have to
        let nv = net.flat.els.iter().filter(|e| e.is_vtype()).count();
        let rest = Sol { v: vec![0.0; net.flat.n], i: vec![0.0; nv] };
        for dt in [0.25 * tm.step.val, 5.0 * tm.step.val] {
            match solve(&net.flat, &At { t: 0.0, prev: Some((&rest, dt)), reltol: 0.0, vntol: 0.0 }) {
                Some((_, cond)) if cond < 1e9 => {}
                _ => return Ok(Verdict::Discard),
            }
        }
        ctx.label("node with only capacitors");
    }
    let m = tran_api_or_deck(ctx, &net, &tm, api)?;
    let (w, _) = sim::tran(ctx, &m.ckt, &m.cfg)?;
    ensure!(!w.t.is_empty(), "no rows");
    let s = sols(&m.map, &w)?;
    let mut worst = 0.0f64;
    if !o.island {
        worst = check(&net.flat, &s[0], &At::dc(w.t[0])).map_err(|e| format!("row 0: {}", e))?;
    }
    let mut moved = false;
    for k in 1..s.len() {
        let dt = w.t[k] - w.t[k - 1];
        ensure!(dt > 0.0, "row {} is at {:e} s, the row before at {:e} s", k, w.t[k], w.t[k - 1]);
        if s[k].v.iter().any(|v| v.is_finite() && v.abs() > 1e200) {
            // negative resistances: voltages that grow at every step end up out of range
            ctx.label("ran away");
            break;
        }
        let at = At { t: w.t[k], prev: Some((&s[k - 1], dt)), reltol: 0.0, vntol: 0.0 };
        let e = check(&net.flat, &s[k], &at).map_err(|e| format!("row {} of {} at {:e} s, {:e} s after the one before: {}", k, s.len(), w.t[k], dt, e))?;
        worst = worst.max(e);
        moved |= s[k].v.iter().zip(&s[k - 1].v).any(|(a, b)| !close(*a, *b, 1e-3));
    }
    if o.island && !o.neg && !o.dep {
        // passive: there is a solution at every step
        ensure!(*w.t.last().unwrap() == tm.stop.val, "the run ends at {:e}, TSTOP is {:e}", w.t.last().unwrap(), tm.stop.val);
    }
    ctx.maximum("error/tolerance", worst);
    ctx.maximum("rows", s.len() as f64);
    kinds(ctx, &net.flat);
    ctx.nontrivial = s.len() >= 4 && moved;
    Ok(Verdict::Pass)
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "at least four rows in which a diode conducts at some time and some voltage changes",
    quick: 250000,
    thorough: 2000000,
    f: c06,
};

/// A driven circuit with diodes that really switch
pub fn diode_net(t: &mut Tape, sc: &Scale) -> crate::deck::Net {
    let style = t.weighted(&[3, 3]);
    if style == 0 {
        let mut o = NetOpts { nodes: (1, 6), ..NetOpts::linear() };
        o.diodes = (1, 5);
        o.caps = (0, 4);
        o.dep = t.chance(1, 4);
        return net(t, &o, sc);
    }
    // a rectifier of some kind: drive, diodes, load, smoothing
    let n = 1 + t.usize(2, 6);
    let mut parts = vec![];
    let (text, s) = match t.weighted(&[3, 2, 1]) {
        0 => {
            let va = number(t, 0, 2, false);
            let f = number(t, -sc.t.1, -sc.t.0 + 1, false);
            (format!("SIN(0 {} {})", va.text, f.text), Src::Sin { vo: 0.0, va: va.val, freq: f.val })
        }
        1 => crate::deck::pwl_src(t, (0, 2), sc),
        _ => {
            let v = number(t, 0, 2, true);
            (v.text.clone(), Src::Dc(v.val))
        }
    };
    parts.push((El::V { p: 1, n: 0, s }, text));
    for k in 2..n {
        let r = number(t, 1, 6, false);
        let b = t.usize(0, k - 1);
        parts.push((El::R { a: k, b, v: r.val }, r.text));
    }
    for _ in 0..t.usize(1, 5) {
        let (p, q) = (t.usize(0, n - 1), t.usize(0, n - 1));
        // not straight across the source
        if (p <= 1 && q <= 1) || p == q {
            continue;
        }
        parts.push((El::D { p, n: q, isat: 1e-9, vt: 0.0 }, String::new()));
    }
    for _ in 0..t.usize(0, 3) {
        let c = number(t, sc.c.0, sc.c.1, false);
        let (a, b) = (t.usize(0, n - 1), t.usize(0, n - 1));
        parts.push((El::C { a, b, v: c.val }, c.text));
    }
    crate::deck::finish(t, n, parts)
}

fn c06(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let api = t.chance(1, 2);
    let mut net = diode_net(t, &sc);
    let mut tdegc = 27.0;
    set_vt(&mut net.flat, sim::thermal_voltage(tdegc));
    if api && t.chance(1, 2) {
        tdegc = other_diodes(t, &mut net.flat);
        ctx.label("other diodes");
    }
    let vt = sim::thermal_voltage(tdegc);
    let tm = times(t, &sc);
    if !well_posed(&net.flat, Some(tm.step.val * 0.25), 1e9) {
        return Ok(Verdict::Discard);
    }
    let mut m = make_at(ctx, &net, &tm.control(), api, tdegc)?;
    if api {
        tm.put(&mut m.cfg);
    }
    if api {
        if t.chance(1, 2) {
            m.cfg.RELTOL = *t.pick(&[1e-3, 1e-5, 1e-7]);
            m.cfg.VNTOL = *t.pick(&[1e-6, 1e-8]);
        }
        if t.chance(1, 3) {
            // provoke retries
            m.cfg.ITL4 = t.usize(2, 12);
            m.cfg.FT = *t.pick(&[0.25, 0.5, 0.1]);
            m.cfg.RMIN = *t.pick(&[1e-3, 1e-2]);
        }
        ctx.show += &format!("\n(RELTOL {:e} VNTOL {:e} ITL4 {} FT {} RMIN {:e})", m.cfg.RELTOL, m.cfg.VNTOL, m.cfg.ITL4, m.cfg.FT, m.cfg.RMIN);
    }
    let (x0, st0) = sim::op(&m.ckt, &m.cfg)?;
    let found = st0.iterations <= m.cfg.ITL1 && x0.iter().all(|x| x.is_finite());
    let (w, st) = sim::tran(ctx, &m.ckt, &m.cfg)?;
    let s = sols(&m.map, &w)?;
    ctx.label(if st.end >= tm.stop.val { "reached TSTOP" } else { "gave up early" });
    let mut worst: f64 = 0.0;
    let (mut moved, mut on) = (false, false);
    for k in 0..s.len() {
        let mut at = At { t: w.t[k], prev: None, reltol: m.cfg.RELTOL, vntol: m.cfg.VNTOL };
        if k > 0 {
            at.prev = Some((&s[k - 1], w.t[k] - w.t[k - 1]));
            moved |= s[k].v.iter().zip(&s[k - 1].v).any(|(a, b)| !close(*a, *b, 1e-3));
        } else if !found {
            continue;
        }
        // a circuit that runs away to where the tolerances are bigger than any
        // diode voltage
        if s[k].v.iter().any(|v| v.abs() * m.cfg.RELTOL > 30.0 * vt) {
            ctx.label("ran away");
            break;
        }
        let e = check(&net.flat, &s[k], &at).map_err(|e| format!("row {} of {} at {:e} s (prev {:?}): {}", k, s.len(), w.t[k], if k > 0 { Some(w.t[k - 1]) } else { None }, e))?;
        worst = worst.max(e);
        for el in &net.flat.els {
            if let El::D { p, n, .. } = el {
                on |= s[k].v[*p] - s[k].v[*n] > 8.0 * vt;
            }
        }
    }
    ctx.maximum("error/tolerance", worst);
    kinds(ctx, &net.flat);
    ctx.nontrivial = s.len() >= 4 && moved && on;
    Ok(Verdict::Pass)
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "constant sources, a capacitor that is charged at the operating point and at least four rows; or varying sources and a TSTART with at least two rows",
    quick: 250000,
    thorough: 2000000,
    f: c07,
};

fn c07(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let vt = sim::thermal_voltage(27.0);
    let sc = scale(t);
    let constant = t.chance(3, 4);
    let with_diodes = t.chance(1, 3);
    let mut o = opts_small(t);
    o.nodes.1 = o.nodes.1.min(16);
    o.caps = (1, 6);
    o.dep = !constant && t.chance(1, 2);
    o.vary = !constant;
    if with_diodes {
        o.diodes = (1, 4);
    }
    let api = t.chance(1, 3);
    let mut net = net(t, &o, &sc);
    set_vt(&mut net.flat, vt);
    if constant && t.chance(1, 3) {
        buffers(t, &mut net, &sc);
    }
    let mut tm = times(t, &sc);
    if !well_posed(&net.flat, Some(tm.step.val * 0.25), 1e7) {
        return Ok(Verdict::Discard);
    }
    let later = t.chance(1, 4);
    if later {
        tm.start = Some(num::exact(tm.stop.val * 1.1 * t.unit()));
        ctx.label("with TSTART");
    }
    let m = tran_api_or_deck(ctx, &net, &tm, api)?;
    // (the operating point is that of time 0, whatever is recorded later)
    let mut cfg0 = m.cfg.clone();
    cfg0.TSTART = 0.0;
    let (x0, st0) = sim::op(&m.ckt, &cfg0)?;
    if st0.iterations > m.cfg.ITL1 || x0.iter().any(|x| !x.is_finite()) {
        return Ok(Verdict::Discard);
    }
    let op = m.map.sol(&x0)?;
    let (w, _) = sim::tran(ctx, &m.ckt, &m.cfg)?;
    let s = sols(&m.map, &w)?;
    ensure!(!s.is_empty(), "no rows");
    ensure!(w.t[0] == 0.0, "the first row is at {:e} s", w.t[0]);
    let same = |a: f64, b: f64, tol: f64| (a - b).abs() <= tol;
    for (k, (a, b)) in s[0].v.iter().chain(&s[0].i).zip(op.v.iter().chain(&op.i)).enumerate() {
        ensure!(same(*a, *b, 1e-9 * b.abs() + 1e-15), "unknown {} of the first row is {:e}, the operating point is {:e}", k, a, b);
    }
    if count(&net.flat, 'D') == 0 {
        check(&net.flat, &s[0], &At::dc(0.0)).map_err(|e| format!("row 0: {}", e))?;
    }
    kinds(ctx, &net.flat);
    let charged = net.flat.els.iter().any(|e| matches!(e, El::C { a, b, .. } if (op.v[*a] - op.v[*b]).abs() > 1e-6));
    if constant {
        let big = op.v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let ibig = op.i.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let dt = w.t.windows(2).map(|p| p[1] - p[0]).fold(f64::INFINITY, f64::min);
        // rounding in capacitor currents that should be nothing
        let n = 8.0 * noise(&net.flat, Some(dt), big, ibig);
        if n > 1e-5 * big {
            return Ok(Verdict::Discard);
        }
        // how far off the solver leaves a diode, and what becomes of that at other
        // nodes (resistors don't amplify)
        let d = 2.0 * m.cfg.RELTOL * big + 2.0 * m.cfg.VNTOL;
        if with_diodes && d > 0.5 * vt {
            // tolerances wider than the knee of the diodes
            ctx.label("first row only");
            return Ok(Verdict::Pass);
        }
        let r_max = net.flat.els.iter().fold(0.0f64, |m, e| if let El::R { v, .. } = e { m.max(*v) } else { m });
        let gain = net.flat.els.iter().fold(1.0f64, |m, e| match e {
            El::E { k, .. } => m.max(k.abs()),
            El::G { k, .. } => m.max(k.abs() * r_max),
            _ => m,
        });
        let slack = if with_diodes { 2.0 * d * (1.0 + count(&net.flat, 'D') as f64) * gain } else { 0.0 };
        let mut worst: f64 = 0.0;
        for (k, r) in s.iter().enumerate() {
            for (j, (a, b)) in r.v.iter().zip(&op.v).enumerate() {
                let tol = n + slack + 1e-8 * b.abs() + 1e-9 * big + 1e-14;
                worst = worst.max((a - b).abs() / tol);
                ensure!(same(*a, *b, tol), "node {} ('{}') is at {:e} V in row {} (at {:e} s), its operating point is {:e} V", j, net.names[j], a, k, w.t[k], b);
            }
        }
        ctx.maximum(if with_diodes { "drift/tolerance with diodes" } else { "drift/tolerance" }, worst);
        ctx.label("constant sources");
    }
    ctx.nontrivial = s.len() >= if later { 2 } else { 4 } && if constant { charged } else { later };
    Ok(Verdict::Pass)
}

/// Add feed-forward controlled sources, each driving a new node with a load
fn buffers(t: &mut Tape, net: &mut crate::deck::Net, sc: &Scale) {
    for j in 0..t.usize(1, 3) {
        let n = net.flat.n;
        let (cp, cn) = (t.usize(0, n - 1), t.usize(0, n - 1));
        let r = number(t, sc.r.0, sc.r.1, false);
        let c = number(t, sc.c.0, sc.c.1, false);
        let name = format!("buf_{}", j);
        let nm = |k: usize| if k == 0 { "0".to_string() } else { net.names[k].clone() };
        if t.chance(1, 2) {
            let k = number(t, -1, 1, true);
            net.lines.push(format!("Ebuf{} {} 0 {} {} {}", j, name, nm(cp), nm(cn), k.text));
            net.flat.els.push(El::E { p: n, n: 0, cp, cn, k: k.val });
        } else {
            let k = number(t, sc.g.0, sc.g.1, true);
            net.lines.push(format!("Gbuf{} {} 0 {} {} {}", j, name, nm(cp), nm(cn), k.text));
            net.flat.els.push(El::G { p: n, n: 0, cp, cn, k: k.val });
        }
        net.lines.push(format!("Rbuf{} {} GND {}", j, name, r.text));
        net.flat.els.push(El::R { a: n, b: 0, v: r.val });
        net.lines.push(format!("Cbuf{} gnd {} {}", j, name, c.text));
        net.flat.els.push(El::C { a: 0, b: n, v: c.val });
        net.flat.n += 1;
        net.names.push(name);
    }
}

pub const C08: Prop = Prop {
    id: "C08",
    rule: "at least eight accepted timepoints; with a TSTART, at least one row before it and one after",
    quick: 150000,
    thorough: 1200000,
    f: c08,
};

fn c08(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let with_diodes = t.chance(1, 3);
    let api = t.chance(1, 2);
    let net = if with_diodes {
        diode_net(t, &sc)
    } else {
        let mut o = opts_small(t);
        o.nodes.1 = o.nodes.1.min(5);
        o.caps = (0, 4);
        o.dep = t.chance(1, 4);
        net(t, &o, &sc)
    };
    if !with_diodes {
        match solve(&net.flat, &At::dc(0.0)) {
            Some((_, cond)) if cond < 1e7 => {}
            _ => return Ok(Verdict::Discard),
        }
    }
    let mut tm = times(t, &sc);
    let mut m = tran_api_or_deck(ctx, &net, &tm, api)?;
    if api && t.chance(1, 3) {
        m.cfg.FS = *t.pick(&[0.25, 0.1, 0.01, 0.2]);
        ctx.show += &format!("\n(FS {})", m.cfg.FS);
    }
    let (w, st) = sim::tran(ctx, &m.ckt, &m.cfg)?;
    let n = w.t.len();
    ensure!(n >= 1 && w.t[0] == 0.0, "the first row isn't at time 0: {:?}", w.t.first());
    let max = tm.max_step(&m.cfg);
    let step = tm.step.val;
    for k in 1..n {
        let dt = w.t[k] - w.t[k - 1];
        let slack = 2e-6 * max + 4.0 * f64::EPSILON * w.t[k];
        ensure!(dt > 0.0, "time goes from {:e} to {:e} in row {}", w.t[k - 1], w.t[k], k);
        ensure!(dt <= max + slack, "the step from {:e} to {:e} is {:e}, more than RMAX*TSTEP = {:e}", w.t[k - 1], w.t[k], dt, max);
        if k == 1 {
            ensure!(dt <= step * 0.25 * (1.0 + 2e-6), "the first step is {:e}, more than a quarter of TSTEP = {:e}", dt, step);
        }
        ensure!(w.t[k] <= tm.stop.val, "row {} at {:e} is after TSTOP {:e}", k, w.t[k], tm.stop.val);
    }
    let last = w.t[n - 1];
    ensure!(st.end == last, "the end is reported as {:e}, the last row is at {:e}", st.end, last);
    if !with_diodes {
        ensure!(last == tm.stop.val, "the run ends at {:e}, TSTOP is {:e}", last, tm.stop.val);
        // nothing is difficult here, so the steps only get longer (until the end)
        let mut reached = None;
        for k in 1..n {
            let dt = w.t[k] - w.t[k - 1];
            let slack = 1e-5 * max + 8.0 * f64::EPSILON * w.t[k];
            if k > 1 && k < n - 1 {
                let before = w.t[k - 1] - w.t[k - 2];
                ensure!(dt >= before - slack, "the step shrinks from {:e} to {:e} at {:e} in a linear circuit", before, dt, w.t[k]);
            }
            if dt >= max - slack && reached.is_none() {
                reached = Some(w.t[k]);
            }
        }
        if tm.stop.val > 12.0 * max && m.cfg.FS >= 0.1 {
            ctx.label("long enough to reach the largest step");
            match reached {
                None => fail!("no step is RMAX*TSTEP = {:e} long; the last ones end at {:?}", max, &w.t[n.saturating_sub(4)..]),
                Some(at) => ensure!(at <= 10.0 * max, "the first step of RMAX*TSTEP = {:e} ends at {:e}", max, at),
            }
        }
    } else {
        ctx.label(if last == tm.stop.val { "diodes, reached TSTOP" } else { "diodes, gave up" });
    }
    if w.t.windows(2).any(|p| p[1] - p[0] >= max * 0.99) {
        ctx.label("largest step used");
    }

    // a later start only leaves rows out
    let mut split = false;
    if t.chance(2, 3) {
        let start = match t.weighted(&[4, 2, 1]) {
            0 => tm.stop.val * t.unit(),
            1 => w.t[t.usize(0, n - 1)],
            _ => tm.stop.val * (0.9 + 0.3 * t.unit()),
        };
        let start = num::exact(start);
        let rows: Vec<usize> = (0..n).filter(|k| *k == 0 || w.t[*k] >= start.val).collect();
        split = rows.len() > 1 && rows.len() < n;
        tm.start = Some(start.clone());
        let mut m2 = tran_api_or_deck(ctx, &net, &tm, api)?;
        if api {
            m2.cfg.FS = m.cfg.FS;
        }
        let (w2, st2) = sim::tran(ctx, &m2.ckt, &m2.cfg)?;
        ensure!(
            w2.t.len() == rows.len() && rows.iter().zip(&w2.t).all(|(k, x)| w.t[*k] == *x),
            "with TSTART {:e} the rows are at {:?}, without it at {:?}",
            start.val, w2.t, w.t
        );
        for (j, k) in rows.iter().enumerate() {
            // node numbers can differ between readings of a deck, but not here
            ensure!(w2.x[j] == w.x[*k], "with TSTART {:e} the row at {:e} is {:?}, without it {:?}", start.val, w.t[*k], w2.x[j], w.x[*k]);
        }
        ensure!(st2.end == st.end, "with TSTART the end is {:e}, without it {:e}", st2.end, st.end);
        ctx.label("with TSTART");
        ctx.nontrivial = n > 8 && split;
    } else {
        ctx.nontrivial = n > 8;
    }
    let _ = split;
    Ok(Verdict::Pass)
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "a timestep had to be retried: the step between rows was reduced, or the run gave up",
    quick: 30000,
    thorough: 300000,
    f: c09,
};

fn c09(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let fixed = t.chance(1, 3);
    let net = if fixed {
        // resistors and sources only
        let mut o = NetOpts { nodes: (1, 4), ..NetOpts::linear() };
        o.vary = true;
        o.dep = t.chance(1, 4);
        let net = net(t, &o, &sc);
        match solve(&net.flat, &At::dc(0.0)) {
            Some((_, cond)) if cond < 1e7 => {}
            _ => return Ok(Verdict::Discard),
        }
        net
    } else {
        diode_net(t, &sc)
    };
    let mut tm = times(t, &sc);
    if tm.stop.val > 25.0 * tm.step.val {
        tm.stop = num::exact(25.0 * tm.step.val);
    }
    // powers of two: steps that come to the least one exactly, which is allowed
    let dyadic = fixed && t.chance(1, 3);
    if dyadic {
        let mut p = 1.0;
        while p > tm.step.val {
            p /= 2.0;
        }
        tm.step = num::exact(p);
    }
    let mut m = tran_api_or_deck(ctx, &net, &tm, true)?;
    let ft = if dyadic { *t.pick(&[0.25, 0.5]) } else { *t.pick(&[0.25, 0.5, 0.1, 0.75]) };
    m.cfg.FT = ft;
    m.cfg.RMIN = if dyadic { *t.pick(&[0.25, 0.0625, 0.015625, 0.125, 0.00390625]) } else { *t.pick(&[1e-3, 1e-1, 1e-2, 3e-4]) };
    if dyadic {
        m.cfg.FS = *t.pick(&[0.25, 0.5, 1.0]);
        m.cfg.RMAX = *t.pick(&[1.0, 2.0, 4.0]);
    }
    m.cfg.ITL4 = if fixed { *t.pick(&[1, 1, 1, 2, 5]) } else { *t.pick(&[4, 3, 2, 5, 6, 8, 10]) };
    if t.chance(1, 2) {
        m.cfg.ITL3 = if fixed { *t.pick(&[2, 1, 3, 0]) } else { *t.pick(&[0, 2]) };
    }
    ctx.show += &format!("\n(ITL3 {} ITL4 {} FT {} RMIN {:e})", m.cfg.ITL3, m.cfg.ITL4, ft, m.cfg.RMIN);
    let (w, st) = sim::tran(ctx, &m.ckt, &m.cfg)?;
    let n = w.t.len();
    ensure!(n >= 1, "no rows");
    let last = w.t[n - 1];
    let step = tm.step.val;
    let (min, max) = (step * m.cfg.RMIN, step * m.cfg.RMAX);
    ensure!(st.end == last, "the end is reported as {:e}, the last accepted row is at {:e}", st.end, last);
    ensure!(last <= tm.stop.val, "the last row at {:e} is after TSTOP {:e}", last, tm.stop.val);
    let gave_up = last < tm.stop.val;
    let mut retried = false;

    if fixed {
        // with one iteration a step will do exactly when its solution is close to
        // the one the solver comes from: that of the row before, or of the longer
        // step that was tried before this one; a second iteration changes nothing
        let at = |x: f64| solve(&net.flat, &At::dc(x)).map(|(s, _)| s);
        let mut d = step * m.cfg.FS.min(m.cfg.RMAX);
        let mut now = 0.0;
        let mut from = match at(0.0) {
            Some(s) => s,
            None => return Ok(Verdict::Discard),
        };
        let mut k = 1;
        let mut iterations = 0;
        let mut exact = dyadic;
        'rows: while now < tm.stop.val {
            let mut geared = false;
            loop {
                let mut end = now + d;
                if close(end + 1e-6 * d, tm.stop.val, 1e-9) {
                    return Ok(Verdict::Discard);
                }
                if end + 1e-6 * d > tm.stop.val {
                    end = tm.stop.val;
                    d = end - now;
                    exact = false;
                }
                let new = match at(end) {
                    Some(s) => s,
                    None => return Ok(Verdict::Discard),
                };
                let mut far = false;
                let pairs = new.v.iter().zip(&from.v).map(|p| (p, m.cfg.VNTOL)).chain(new.i.iter().zip(&from.i).map(|p| (p, m.cfg.ABSTOL)));
                for ((a, b), abs) in pairs {
                    let r = (a - b).abs() / (m.cfg.RELTOL * a.abs() + abs);
                    if (r - 1.0).abs() < 1e-3 {
                        return Ok(Verdict::Discard);
                    }
                    far |= r > 1.0;
                }
                from = new;
                if !far || m.cfg.ITL4 > 1 {
                    let took = if far { 2 } else { 1 };
                    iterations += took;
                    ensure!(n > k, "the run stopped at {:e} although a step of {:e} converges; times {:?}", last, d, w.t);
                    ensure!(close(w.t[k], end, 1e-9), "row {} is at {:e}, expected at {:e}; times {:?}", k, w.t[k], end, w.t);
                    now = end;
                    k += 1;
                    if !geared && took < m.cfg.ITL3 {
                        d = (2.0 * d).min(max);
                    }
                    break;
                }
                iterations += 1;
                d *= ft;
                geared = true;
                retried = true;
                if close(d, min, 1e-9) {
                    if !exact {
                        return Ok(Verdict::Discard);
                    }
                    ctx.label("a try with the least step allowed");
                }
                if d < min {
                    break 'rows;
                }
            }
        }
        ensure!(n == k, "{} rows where {} are expected; times {:?}", n, k, w.t);
        ensure!(gave_up == (now < tm.stop.val), "the run ends at {:e}, expected at {:e}", last, now);
        let (_, st0) = sim::op(&m.ckt, &m.cfg)?;
        let used = st.iterations as i64 - st0.iterations as i64;
        ensure!(used == iterations as i64, "{} iterations reported for the timesteps, {} expected; times {:?}", used, iterations, w.t);
        ctx.label(if retried { "predicted, with retries" } else { "predicted" });
    } else {
        // how often a step was reduced, at least
        let mut reduced = 0;
        for k in 1..n {
            let dt = w.t[k] - w.t[k - 1];
            let eps = 8.0 * f64::EPSILON * w.t[k];
            let final_clip = w.t[k] == tm.stop.val;
            if k == 1 || !final_clip {
                ensure!(final_clip || dt >= min * (1.0 - 1e-6) - eps, "the step {:e} to {:e} is shorter than RMIN*TSTEP = {:e}", w.t[k - 1], w.t[k], min);
            }
            // from the step before to this one: the same, grown, or reduced by FT
            // some number of times
            let before = if k > 1 { w.t[k - 1] - w.t[k - 2] } else { step * m.cfg.FS.min(m.cfg.RMAX) };
            if dt < before * (1.0 - 1e-6) - eps && !final_clip {
                retried = true;
                let mut least: Option<i32> = None;
                for base in [before, (2.0 * before).min(max), max, tm.stop.val - w.t[k - 1]] {
                    let r = (dt / base).ln() / ft.ln();
                    let j = r.round();
                    if j >= 0.0 && close(base * ft.powi(j as i32), dt, 1e-6 + 2.0 * eps / dt) {
                        least = Some(least.map_or(j as i32, |l| l.min(j as i32)));
                    }
                }
                reduced += least.unwrap_or(0) as usize;
                ensure!(least.is_some(), "the step goes from {:e} to {:e} at {:e}, which isn't by a power of FT = {}", before, dt, w.t[k], ft);
            }
        }
        if gave_up {
            retried = true;
            // (not because of a numerical error, where a smaller RMIN is no help)
            let mut cfg = m.cfg.clone();
            cfg.RMIN /= 10.0;
            let (_, st2) = sim::tran(ctx, &m.ckt, &cfg)?;
            if st2.iterations > st.iterations {
                // from the last step, or what is left of the run, to below the least
                let before = if n > 1 { w.t[n - 1] - w.t[n - 2] } else { step * m.cfg.FS.min(m.cfg.RMAX) };
                let mut d = before.min(tm.stop.val - last) * (1.0 - 1e-6);
                while d >= min {
                    d *= ft;
                    reduced += 1;
                }
            }
        }
        // each failed try took all the iterations it is allowed, each row at least
        // one more
        let (_, st0) = sim::op(&m.ckt, &m.cfg)?;
        let used = st.iterations - st0.iterations;
        let least = reduced * m.cfg.ITL4 + (n - 1);
        ensure!(used >= least, "{} iterations for {} rows and at least {} reductions of the step, after {} iterations each: must be {} or more", used, n, reduced, m.cfg.ITL4, least);
        if reduced > 0 {
            ctx.label("iterations of failed tries counted");
        }
    }

    // a smaller RMIN only adds to the run
    if gave_up || t.chance(1, 4) {
        let mut cfg = m.cfg.clone();
        cfg.RMIN /= 10.0;
        let (w2, st2) = sim::tran(ctx, &m.ckt, &cfg)?;
        ensure!(
            w2.t.len() >= n && w2.t[..n] == w.t[..] && w2.x[..n] == w.x[..],
            "with RMIN {:e} the rows are at {:?}, with {:e} at {:?}",
            cfg.RMIN, w2.t, m.cfg.RMIN, w.t
        );
        ensure!(st2.end >= st.end, "with RMIN {:e} the run ends at {:e}, with {:e} at {:e}", cfg.RMIN, st2.end, m.cfg.RMIN, st.end);
        if st2.end > st.end {
            ctx.label("got further with a smaller RMIN");
        }
    }
    ctx.label(if gave_up { "gave up" } else { "reached TSTOP" });
    if retried {
        ctx.label("retried");
    }
    ctx.nontrivial = retried;
    Ok(Verdict::Pass)
}
