//! C20 to C23: the engine and the circuit as data structures

use super::*;
use crate::deck::{self, net, prog, scale, ProgOpts};
use crate::model::{check, At, Src};
use crate::num;
use crate::run::{guarded, Res, Verdict};
use crate::{ensure, fail};
use std::collections::BTreeMap;
use std::path::PathBuf;
use tiny_spice::analysis::{Kind, Statistics};
use tiny_spice::circuit::{Diode, Element};
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

// ------------------------------------------------------------------- C20

pub const C20: Prop = Prop {
    id: "C20",
    rule: "at least two analyses on one engine, of circuits of different size or with storage, nonlinear or varying elements",
    quick: 80000,
    thorough: 600000,
    f: c20,
};

struct Thing {
    ckt: Circuit,
    cfg: Configuration,
    text: String,
    size: usize,
    lively: bool,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn stats(s: &Statistics) -> (bool, u64, usize) {
    (matches!(s.kind, Kind::Transient), s.end.to_bits(), s.iterations)
}

/// Everything observable of a circuit
fn describe(c: &Circuit) -> String {
    let nodes: BTreeMap<_, _> = c.nodes.iter().collect();
    let lut: BTreeMap<_, _> = c.node_id_lut.iter().collect();
    let els: Vec<_> = c.elements.iter().map(|e| format!("{:?} {}", sim::as_el(e), e)).collect();
    let params: Vec<_> = c.params.iter().map(|p| format!("{}={:?}", p.name, p.value)).collect();
    format!(
        "{} nid_next {} v_idx_next {}\n{:?}\n{:?}\n{:?}\n{:?} {}",
        c.name, c.nid_next, c.v_idx_next, nodes, lut, els, params, c.instances.len()
    )
}

/// A circuit of some kind, sometimes one that is hard or impossible to solve
fn thing(t: &mut Tape, ctx: &mut Ctx) -> Result<Thing, Stop> {
    let sc = scale(t);
    let step = num::number(t, sc.t.0, sc.t.1, false);
    let stop = num::exact(step.val * t.int(1, 6) as f64);
    let control = format!("tran {} {}", step.text, stop.text);
    let (ckt, mut cfg, text);
    match t.weighted(&[4, 3, 2, 1]) {
        0 => {
            let mut o = opts_small(t);
            o.caps = (0, 4);
            o.diodes = if t.chance(1, 2) { (0, 4) } else { (0, 0) };
            o.nodes.1 = o.nodes.1.min(15);
            let n = net(t, &o, &sc);
            let api = t.chance(1, 3);
            text = n.deck(&control);
            if api {
                ckt = guarded(|| sim::build(&n.flat, &n.names, &n.spare, 27.0))?;
                cfg = Configuration::new();
                cfg.set_transient(stop.val, step.val, 0.0);
            } else {
                let d = sim::read_text(ctx, &text)?;
                ckt = d.ckt;
                cfg = d.cfg;
            }
        }
        1 => {
            let n = tran::diode_net(t, &sc);
            text = n.deck(&control);
            let d = sim::read_text(ctx, &text)?;
            ckt = d.ckt;
            cfg = d.cfg;
        }
        2 => {
            let o = ProgOpts {
                defs: (1, 3),
                caps: true,
                diodes: t.chance(1, 2),
                dep: t.chance(1, 2),
                sources: true,
                vary: true,
                params: 2,
                max_els: 40,
                dup_names: false,
                any_value: false,
            };
            let p = prog(t, &o, &sc);
            text = p.deck(t, &[control]);
            // expanding must not change what the reader has
            let path = sim::write_deck(ctx, "deck.spi", &text);
            let (a, b, c) = guarded(|| {
                let mut r = Reader::new();
                if r.read(&path) {
                    return Err("the reader reports errors".to_string());
                }
                let a = r.get_expanded_circuit();
                let b = r.get_expanded_circuit();
                Ok((a, b, r.configuration().clone()))
            })
            .unwrap_or_else(Err)?;
            let (x, y) = (describe(&a), describe(&b));
            if x != y {
                ctx.show = text.clone();
                fail!("expanding twice gives different circuits:\n{}\nand\n{}", x, y);
            }
            ctx.label("expanded twice");
            ckt = if t.chance(1, 2) { a } else { b };
            cfg = c;
        }
        _ => {
            // a node that is connected through capacitors only has no operating point
            let c = num::number(t, sc.c.0, sc.c.1, false);
            let v = num::number(t, -1, 2, true);
            text = format!("floating\nV1 a 0 {}\nC1 a b {}\nC2 b 0 {}\n.control\n{}\n.endc\n", v.text, c.text, c.text, control);
            let d = sim::read_text(ctx, &text)?;
            ckt = d.ckt;
            cfg = d.cfg;
            ctx.label("has a floating node");
        }
    }
    if t.chance(1, 6) {
        cfg.ITL1 = t.usize(0, 8);
        cfg.ITL4 = t.usize(1, 6);
    }
    let lively = ckt.elements.iter().any(|e| !matches!(e, Element::R(_) | Element::V(_) | Element::I(_)));
    Ok(Thing { size: ckt.count_nodes(), ckt, cfg, text, lively })
}

/// The same circuit but for one thing
fn variant(t: &mut Tape, of: &Thing) -> Thing {
    let mut ckt = of.ckt.clone();
    let mut cfg = of.cfg.clone();
    let by = *t.pick(&[2.0, 0.5, 1.001, 10.0]);
    let what;
    if t.chance(1, 6) || ckt.elements.is_empty() {
        match t.usize(0, 3) {
            0 => cfg.RELTOL *= by,
            1 => cfg.TSTEP *= by,
            2 => cfg.ABSTOL *= by,
            _ => {}
        }
        what = format!("RELTOL {:e} TSTEP {:e} ABSTOL {:e}", cfg.RELTOL, cfg.TSTEP, cfg.ABSTOL);
    } else {
        let k = t.usize(0, ckt.elements.len() - 1);
        let which = t.usize(0, 2);
        match &mut ckt.elements[k] {
            Element::R(e) => e.value *= by,
            Element::C(e) => e.value *= by,
            Element::V(e) => e.value *= by,
            Element::I(e) => e.value *= by,
            Element::Vcvs(e) => e.k *= by,
            Element::Vccs(e) => e.k *= by,
            Element::Isin(e) => match which {
                0 => e.vo = e.vo * by + 1e-3,
                1 => e.va *= by,
                _ => e.freq *= by,
            },
            Element::Vsin(e) => match which {
                0 => e.vo = e.vo * by + 1e-3,
                1 => e.va *= by,
                _ => e.freq *= by,
            },
            Element::Vpwl(e) => match which {
                0 => e.pat.iter_mut().for_each(|p| p.1 *= by),
                1 => e.pat.iter_mut().for_each(|p| p.0 *= by),
                _ => e.t_delay += of.cfg.TSTEP,
            },
            Element::D(e) => {
                *e = match which {
                    0 => Diode::new(&e.ident, e.p, e.n, e.i_sat * by, e.tdegc),
                    1 => Diode::new(&e.ident, e.p, e.n, e.i_sat, e.tdegc + 10.0 * by),
                    _ => Diode::new(&e.ident, e.n, e.p, e.i_sat, e.tdegc),
                }
            }
        }
        what = format!("element {} ({}) changed, by {} ({})", k, ckt.elements[k], by, which);
    }
    let text = format!("{}(but for {})\n", of.text, what);
    Thing { ckt, cfg, text, size: of.size, lively: of.lively }
}

enum Got {
    Op((bool, u64, usize)),
    Tran((bool, u64, usize), Vec<u8>),
}

fn analyse(ctx: &Ctx, e: &mut Engine, th: &Thing, tran: bool) -> Result<Got, String> {
    if tran {
        let path: PathBuf = ctx.dir.join("tran.dat");
        let _ = std::fs::remove_file(&path);
        let mut cfg = th.cfg.clone();
        cfg.wavefile = path.to_str().unwrap().to_string();
        let st = guarded(|| e.transient_analysis(&th.ckt, &cfg))?;
        Ok(Got::Tran(stats(&st), std::fs::read(&path).unwrap_or_default()))
    } else {
        let st = guarded(|| e.dc_operating_point(&th.ckt, &th.cfg))?;
        Ok(Got::Op(stats(&st)))
    }
}

fn c20(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let nt = t.usize(1, 4);
    let mut things: Vec<Thing> = vec![];
    for k in 0..nt {
        let th = if k > 0 && t.chance(1, 3) {
            let of = t.usize(0, k - 1);
            ctx.label("a circuit that is nearly another one");
            variant(t, &things[of])
        } else {
            thing(t, ctx)?
        };
        things.push(th);
    }
    let before: Vec<String> = things.iter().map(|th| describe(&th.ckt)).collect();
    let n = t.usize(2, 6);
    let seq: Vec<(usize, bool)> = (0..n).map(|_| (t.usize(0, nt - 1), t.chance(1, 2))).collect();
    ctx.show = format!("analyses (circuit, transient?): {:?}\n", seq);
    for (k, th) in things.iter().enumerate() {
        ctx.show += &format!("--- circuit {} (ITL1 {} ITL4 {})\n{}", k, th.cfg.ITL1, th.cfg.ITL4, th.text);
    }
    let mut shared = guarded(Engine::new)?;
    let mut failed = false;
    for (k, (c, tr)) in seq.iter().enumerate() {
        let got = analyse(ctx, &mut shared, &things[*c], *tr)?;
        let mut fresh = guarded(Engine::new)?;
        let want = analyse(ctx, &mut fresh, &things[*c], *tr)?;
        match (&got, &want) {
            (Got::Op(a), Got::Op(b)) => {
                ensure!(a == b, "operating point {} of circuit {}: {:?}, with a fresh engine {:?}", k, c, a, b);
                failed |= a.2 > things[*c].cfg.ITL1;
            }
            (Got::Tran(a, x), Got::Tran(b, y)) => {
                ensure!(a == b, "transient {} of circuit {}: {:?}, with a fresh engine {:?}", k, c, a, b);
                ensure!(!y.is_empty(), "no waveforms");
                ensure!(
                    x == y,
                    "transient {} of circuit {} writes\n{}\nwith a fresh engine\n{}", k, c,
                    String::from_utf8_lossy(x), String::from_utf8_lossy(y)
                );
                failed |= f64::from_bits(a.1) < things[*c].cfg.TSTOP;
            }
            _ => {}
        }
        // the operating point itself can only be had by giving up the engine
        if k + 1 == n || t.chance(1, 4) {
            let mut again = guarded(Engine::new)?;
            for (c, tr) in &seq[..=k] {
                analyse(ctx, &mut again, &things[*c], *tr)?;
            }
            let a = again.dc().map(|v| bits(&v));
            let b = fresh.dc().map(|v| bits(&v));
            ensure!(a == b, "after analysis {} (circuit {}) the operating point is {:?}, with a fresh engine {:?}", k, c, a, b);
        }
    }
    for (k, th) in things.iter().enumerate() {
        let after = describe(&th.ckt);
        ensure!(after == before[k], "circuit {} has been changed from\n{}\nto\n{}", k, before[k], after);
    }
    if failed {
        ctx.label("an analysis failed to converge");
    }
    if seq.iter().any(|s| s.1) && seq.iter().any(|s| !s.1) {
        ctx.label("op and tran");
    }
    let used: Vec<usize> = seq.iter().map(|s| s.0).collect();
    let sizes: std::collections::BTreeSet<usize> = used.iter().map(|c| things[*c].size).collect();
    if sizes.len() > 1 {
        ctx.label("different sizes");
    }
    ctx.nontrivial = sizes.len() > 1 || used.iter().any(|c| things[*c].lively);
    Ok(Verdict::Pass)
}

// ------------------------------------------------------------------- C21

pub const C21: Prop = Prop {
    id: "C21",
    rule: "a circuit with at least 30 nodes whose operating point was compared with the closed form",
    quick: 8000,
    thorough: 60000,
    f: c21,
};

struct Big {
    /// element, instance lines and definitions
    lines: Vec<String>,
    defs: Vec<String>,
    /// name of a node and its voltage
    want: Vec<(String, f64)>,
    /// as a model, when there's no closed form
    flat: Option<(Flat, Vec<Vec<String>>)>,
    tol: f64,
}

fn res(t: &mut Tape) -> f64 {
    *t.pick(&[100.0, 220.0, 470.0, 1000.0, 150.0, 330.0])
}

/// Nodes 1..n of a ladder: series resistors `s[k]` between node k and k+1 (node
/// 0 being the source), shunts `p[k]` to ground, solved from the far end
fn ladder(v: f64, s: &[f64], p: &[f64]) -> Vec<f64> {
    let n = s.len();
    // conductance into the rest of the ladder seen at node k
    let mut g = vec![0.0; n + 1];
    for k in (0..n).rev() {
        let here = g[k + 1] + if p[k].is_finite() { 1.0 / p[k] } else { 0.0 };
        // seen through s[k]
        g[k] = if here == 0.0 { 0.0 } else { 1.0 / (s[k] + 1.0 / here) };
    }
    let mut out = vec![v];
    let mut now = v;
    for k in 0..n {
        let here = g[k + 1] + if p[k].is_finite() { 1.0 / p[k] } else { 0.0 };
        now = if here == 0.0 { now } else { now * (1.0 / here) / (s[k] + 1.0 / here) };
        out.push(now);
    }
    out
}

fn c21(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let size = match t.weighted(&[3, 4, 2]) {
        0 => t.usize(1, 40),
        1 => t.usize(40, 200),
        _ => if t.chance(1, 100) { t.usize(1000, 1100) } else { t.usize(200, 600) },
    };
    let kind = t.weighted(&[3, 2, 3, 3, 2, 3, 2, 2, 2, 2, 1, 2, 2]);
    let v0 = t.int(1, 20) as f64;
    // everything at some other impedance level
    let z = if t.chance(1, 2) { 1.0 } else { 10f64.powi(t.int(-6, 14) as i32) };
    let res = |t: &mut Tape| res(t) * z;
    let mut b = Big { lines: vec![format!("Vtop n0 0 {}", v0)], defs: vec![], want: vec![], flat: None, tol: 1e-8 };
    let label = match kind {
        0 => {
            // ladder with shunts here and there
            let far = if t.chance(1, 2) { 1e3 } else { 1e6 };
            let s: Vec<f64> = (0..size).map(|_| res(t)).collect();
            let p: Vec<f64> = (0..size).map(|k| if k + 1 == size || t.chance(1, 3) { res(t) * far / 10.0 } else { f64::INFINITY }).collect();
            for k in 0..size {
                b.lines.push(format!("Rs{} n{} n{} {}", k, k, k + 1, s[k]));
                if p[k].is_finite() {
                    b.lines.push(format!("Rp{} n{} 0 {}", k, k + 1, p[k]));
                }
            }
            b.want = ladder(v0, &s, &p).into_iter().enumerate().map(|(k, v)| (format!("n{}", k), v)).collect();
            "ladder"
        }
        1 => {
            // R-2R: every node of an endless-looking ladder halves the voltage
            let n = size.min(400);
            for k in 0..n {
                b.lines.push(format!("Rs{} n{} n{} {}", k, k, k + 1, 1e3 * z));
                b.lines.push(format!("Rp{} n{} 0 {}", k, k + 1, 2e3 * z));
            }
            b.lines.push(format!("Rend n{} 0 {}", n, 2e3 * z));
            let mut v = v0;
            b.want.push(("n0".into(), v));
            for k in 0..n {
                v /= 2.0;
                b.want.push((format!("n{}", k + 1), v));
            }
            "R-2R"
        }
        2 => {
            // stack of voltage sources
            let mut v = v0;
            b.want.push(("n0".into(), v));
            for k in 0..size {
                let s = t.int(-9, 9) as f64;
                if t.chance(1, 2) {
                    b.lines.push(format!("V{} n{} n{} {}", k, k + 1, k, s));
                } else {
                    b.lines.push(format!("V{} n{} n{} {}", k, k, k + 1, -s));
                }
                v += s;
                b.want.push((format!("n{}", k + 1), v));
                if t.chance(1, 5) {
                    b.lines.push(format!("R{} n{} 0 {}", k, k + 1, res(t)));
                }
            }
            b.lines.push(format!("Rload n{} 0 {}", size, 1e3 * z));
            "stack of sources"
        }
        3 => {
            // chain of buffers
            let mut v = v0;
            b.want.push(("n0".into(), v));
            for k in 0..size {
                let g = *t.pick(&[1.0, -1.0, 1.01, 0.99, -1.02, 0.5, 2.0]);
                let g = if v.abs() > 1e3 { 0.5 } else if v.abs() < 1e-3 { 2.0 } else { g };
                b.lines.push(format!("E{} n{} 0 n{} 0 {}", k, k + 1, k, g));
                b.lines.push(format!("R{} n{} 0 {}", k, k + 1, res(t)));
                v *= g;
                b.want.push((format!("n{}", k + 1), v));
            }
            "chain of VCVS"
        }
        4 => {
            let mut v = v0;
            b.want.push(("n0".into(), v));
            for k in 0..size {
                let g = *t.pick(&[1e-3, 2e-3, -1e-3, 5e-4]);
                let r = if v.abs() > 1e3 { 250.0 } else if v.abs() < 1e-3 { 4000.0 } else { 1000.0 };
                b.lines.push(format!("G{} n{} 0 n{} 0 {:e}", k, k + 1, k, g / z));
                b.lines.push(format!("R{} n{} 0 {}", k, k + 1, r * z));
                v *= -g * r;
                b.want.push((format!("n{}", k + 1), v));
            }
            "chain of VCCS"
        }
        5 => {
            // chain of subcircuits, each a section of a ladder with a node inside
            let n = (size / 2).max(1);
            b.defs.push(".subckt sec a b rs=100 rp=1k\nR1 a mid {rs}\nR2 mid b {rs}\nR3 gnd b {rp}\n.ends".to_string());
            let mut s = vec![];
            let mut p = vec![];
            for k in 0..n {
                let rs = res(t);
                let rp = res(t) * 100.0;
                b.lines.push(format!("X{} n{} n{} sec rs={} rp={}", k, k, k + 1, rs, rp));
                s.extend([rs, rs]);
                p.extend([f64::INFINITY, rp]);
            }
            for (k, v) in ladder(v0, &s, &p).into_iter().enumerate() {
                b.want.push((if k % 2 == 0 { format!("n{}", k / 2) } else { format!("X{}.mid", k / 2) }, v));
            }
            "chain of subcircuits"
        }
        6 => {
            // each level is two of the level below in series
            let mut depth = 1;
            while (1usize << (depth + 1)) <= size && depth < 9 {
                depth += 1;
            }
            b.defs.push(format!(".subckt l0 a b\nR1 a b {}\n.ends", 1e3 * z));
            for d in 1..=depth {
                b.defs.push(format!(".subckt l{} a b\nXp a m l{}\nXq m b l{}\n.ends", d, d - 1, d - 1));
            }
            b.lines.push(format!("Xt n0 0 l{}", depth));
            b.want.push(("n0".into(), v0));
            // the middle of each level below, at either end
            let (mut hi, mut lo) = (v0, 0.0);
            let mut path = "Xt".to_string();
            for _ in 0..depth {
                let mid = (hi + lo) / 2.0;
                b.want.push((format!("{}.m", path), mid));
                if t.chance(1, 2) {
                    path += ".Xp";
                    lo = mid;
                } else {
                    path += ".Xq";
                    hi = mid;
                }
            }
            "nested doubling"
        }
        7 => {
            // one instance per level
            let depth = size.min(150);
            b.defs.push(format!(".subckt d0 a\nR1 a 0 {}\n.ends", 1e3 * z));
            for d in 1..=depth {
                b.defs.push(format!(".subckt d{} a\nR1 a in {}\nXd in d{}\n.ends", d, 1e3 * z, d - 1));
            }
            b.lines.push(format!("Xd n0 d{}", depth));
            b.want.push(("n0".into(), v0));
            let mut path = "Xd".to_string();
            for d in 0..depth {
                b.want.push((format!("{}.in", path), v0 * (depth - d) as f64 / (depth + 1) as f64));
                path += ".Xd";
            }
            "deep nesting"
        }
        8 => {
            // a grid has no closed form: Kirchhoff's laws have to do
            let w = ((size as f64).sqrt() as usize).clamp(2, 22);
            let at = |x: usize, y: usize| 1 + y * w + x;
            let mut els = vec![];
            for y in 0..w {
                for x in 0..w {
                    if x + 1 < w {
                        els.push(El::R { a: at(x, y), b: at(x + 1, y), v: res(t) });
                    }
                    if y + 1 < w {
                        els.push(El::R { a: at(x, y), b: at(x, y + 1), v: res(t) });
                    }
                }
            }
            els.push(El::V { p: at(0, 0), n: 0, s: Src::Dc(v0) });
            els.push(El::R { a: at(w - 1, w - 1), b: 0, v: res(t) });
            els.push(El::I { p: 0, n: at(w - 1, 0), s: Src::Dc(1e-3 / z) });
            let flat = Flat { n: w * w + 1, els };
            let mut lines: Vec<String> = deck::flat_deck(&flat, "op").lines().skip(1).map(|s| s.to_string()).collect();
            lines.truncate(lines.len() - 3);
            b.lines = lines;
            let names = deck::flat_names(flat.n);
            b.flat = Some((flat, names));
            "grid"
        }
        10 => {
            // one subcircuit with a great many ports and parameters: a ladder whose
            // nodes are its ports
            let n = size.min(400);
            let s: Vec<f64> = (0..n).map(|_| res(t)).collect();
            let p: Vec<f64> = (0..n).map(|_| res(t) * 100.0).collect();
            // some parameters are left at their defaults
            let dflt: Vec<bool> = (0..n).map(|_| t.chance(1, 3)).collect();
            let mut d = String::from(".subckt wide");
            for k in 0..=n {
                d += &format!(" q{}", k);
            }
            for k in 0..n {
                d += &format!(" s{}={}", k, if dflt[k] { s[k] } else { 1.0 });
            }
            for k in 0..n {
                d += &format!("\nRs{} q{} q{} {{s{}}}\nRp{} q{} gnd {}", k, k, k + 1, k, k, k + 1, p[k]);
            }
            d += "\n.ends";
            b.defs.push(d);
            let mut l = String::from("Xw");
            for k in 0..=n {
                l += &format!(" n{}", k);
            }
            l += " wide";
            for k in 0..n {
                if !dflt[k] {
                    l += &format!(" s{}={}", k, s[k]);
                }
            }
            b.lines.push(l);
            for (k, v) in ladder(v0, &s, &p).into_iter().enumerate() {
                b.want.push((if k % 2 == 0 { format!("n{}", k) } else { format!("Xw.q{}", k) }, v));
            }
            "wide subcircuit"
        }
        11 => {
            // as many definitions as instances
            let n = size.min(400);
            let mut s = vec![];
            let mut p = vec![];
            for k in 0..n {
                let (rs, rp) = (res(t), res(t) * 100.0);
                b.defs.push(format!(".subckt part{} a b r={}\nR1 a b {{r}}\nR2 b GND {}\n.ends", k, rs, rp));
                b.lines.push(format!("X{} n{} n{} part{}", k, k, k + 1, k));
                s.push(rs);
                p.push(rp);
            }
            b.want = ladder(v0, &s, &p).into_iter().enumerate().map(|(k, v)| (format!("n{}", k), v)).collect();
            "many definitions"
        }
        12 => {
            // an RC line with diodes on it, in time
            let n = size.clamp(2, 120);
            let mut els = vec![El::V { p: 1, n: 0, s: Src::Sin { vo: if t.chance(1, 2) { 0.0 } else { v0 / 4.0 }, va: v0, freq: 1e3 } }];
            for k in 1..n {
                els.push(El::R { a: k, b: k + 1, v: res(t) });
                let c = *t.pick(&[1e-7, 1e-6, 4.7e-8]) / z;
                els.push(if t.chance(1, 4) { El::C { a: 0, b: k + 1, v: c } } else { El::C { a: k + 1, b: 0, v: c } });
                if z == 1.0 && t.chance(1, 6) {
                    let back = if t.chance(1, 2) { t.usize(1, k) } else { 0 };
                    els.push(if t.chance(1, 2) { El::D { p: k + 1, n: back, isat: 1e-9, vt: 0.0 } } else { El::D { p: back, n: k + 1, isat: 1e-9, vt: 0.0 } });
                }
            }
            let mut flat = Flat { n: n + 1, els };
            set_vt(&mut flat, sim::thermal_voltage(27.0));
            b.lines = deck::flat_deck(&flat, "op").lines().skip(1).map(|s| s.to_string()).collect();
            b.lines.truncate(b.lines.len() - 3);
            b.flat = Some((flat, deck::flat_names(n + 1)));
            "RC line"
        }
        _ => {
            // many branches, each with a source of its own
            let n = (size / 2).max(1);
            b.want.push(("n0".into(), v0));
            for k in 0..n {
                let v = t.int(-9, 9) as f64;
                let (r1, r2) = (res(t), res(t));
                if t.chance(1, 2) {
                    b.lines.push(format!("V{} a{} 0 {}", k, k, v));
                } else {
                    b.lines.push(format!("V{} 0 a{} {}", k, k, -v));
                }
                b.lines.push(format!("R{}a a{} b{} {}", k, k, k, r1));
                b.lines.push(format!("R{}b b{} n0 {}", k, k, r2));
                b.want.push((format!("a{}", k), v));
                b.want.push((format!("b{}", k), v + (v0 - v) * r1 / (r1 + r2)));
            }
            "star of sources"
        }
    };
    if t.chance(1, 2) {
        let perm = t.permutation(b.lines.len());
        b.lines = perm.iter().map(|k| b.lines[*k].clone()).collect();
    }
    let mut text = String::from("big\n");
    let defs_first = t.chance(1, 2);
    if defs_first {
        text += &b.defs.iter().rev().map(|s| format!("{}\n", s)).collect::<String>();
    }
    text += &b.lines.join("\n");
    text.push('\n');
    if !defs_first {
        text += &b.defs.iter().map(|s| format!("{}\n", s)).collect::<String>();
    }
    text += if kind == 12 { ".control\ntran 100u 300u\n.endc\n" } else { ".control\nop\n.endc\n" };
    ctx.show = format!("({}, size {})\n{}", label, size, text);
    let d = sim::read_text(ctx, &text)?;
    let (x, st) = sim::op(&d.ckt, &d.cfg)?;
    ensure!(st.iterations <= d.cfg.ITL1, "no operating point was found");
    let n;
    if let Some((flat, names)) = &b.flat {
        let map = sim::match_up(flat, names, &d.ckt)?;
        let s = map.sol(&x)?;
        let at = |tm: f64| At { t: tm, prev: None, reltol: d.cfg.RELTOL, vntol: d.cfg.VNTOL };
        let e = check(flat, &s, &if kind == 12 { at(0.0) } else { At::dc(0.0) })?;
        ctx.maximum("error/tolerance in Kirchhoff's laws", e);
        n = flat.n;
        if kind == 12 {
            let (w, st) = sim::tran(ctx, &d.ckt, &d.cfg)?;
            let mut last = map.sol(&w.x[0])?;
            for k in 1..w.t.len() {
                let s = map.sol(&w.x[k])?;
                let mut at = at(w.t[k]);
                at.prev = Some((&last, w.t[k] - w.t[k - 1]));
                let e = check(flat, &s, &at).map_err(|e| format!("row {} at {:e} s: {}", k, w.t[k], e))?;
                ctx.maximum("error/tolerance in a transient", e);
                last = s;
            }
            ensure!(st.end == *w.t.last().unwrap(), "the run ended at {:e}, the last row is at {:e}", st.end, w.t.last().unwrap());
            ctx.label(if st.end >= 300e-6 { "transient to TSTOP" } else { "transient gave up" });
        }
    } else {
        n = b.want.len();
        let big = b.want.iter().fold(0.0f64, |m, w| m.max(w.1.abs()));
        for (name, v) in &b.want {
            let id = match d.ckt.get_node_id(name) {
                Some(k) => k,
                None => fail!("no node '{}'", name),
            };
            ensure!(id < x.len(), "node '{}' is number {} of {}", name, id, x.len());
            let e = (x[id] - v).abs() / big;
            ctx.maximum(&format!("relative error, {}", label), e);
            ensure!(e <= b.tol, "'{}' is at {:e} V, the closed form says {:e} V", name, x[id], v);
        }
    }
    ctx.label(label);
    if z != 1.0 {
        ctx.label("another impedance level");
    }
    ctx.maximum("nodes", d.ckt.count_nodes() as f64);
    if d.ckt.count_nodes() > 200 {
        ctx.label("more than 200 nodes");
    }
    ctx.nontrivial = n >= 30 || d.ckt.count_nodes() >= 30;
    Ok(Verdict::Pass)
}

// ------------------------------------------------------------------- C22

pub const C22: Prop = Prop {
    id: "C22",
    rule: "a pair of vectors with a difference near a limit, or a non-finite entry",
    quick: 1200000,
    thorough: 24000000,
    f: c22,
};

fn c22(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let n = 1 + t.usize(1, 12);
    let m = t.usize(0, 5);
    let ckt = guarded(|| {
        let mut c = Circuit::new();
        let mut ids = vec![];
        for k in 1..n {
            let id = c.add_node(&format!("n{}", k));
            ids.push(id);
            c.add_r(format!("R{}", k), id, 0, 1000.0);
        }
        for j in 0..m {
            // a source with a resistor to anywhere
            let id = c.add_node(&format!("s{}", j));
            c.add_v(id, 0, 1.0);
            c.add_r(format!("Rs{}", j), id, ids[j % ids.len()], 50.0);
        }
        c.build_node_id_lut();
        c
    })?;
    let n = n + m; // nodes, with ground
    let mut e = guarded(Engine::new)?;
    guarded(|| e.dc_operating_point(&ckt, &Configuration::new()))?;

    let mut cfg = Configuration::new();
    let exact = t.chance(1, 6);
    let pow = |t: &mut Tape, lo: i64, hi: i64| (1.0 + 8.0 * t.unit()) * 10f64.powi(t.int(lo, hi) as i32);
    if exact {
        // sums and differences are exact
        cfg.RELTOL = 1.0 / (1u64 << t.int(1, 12)) as f64;
        cfg.VNTOL = 1.0 / (1u64 << t.int(1, 12)) as f64;
        cfg.ABSTOL = 1.0 / (1u64 << t.int(1, 12)) as f64;
    } else if t.chance(2, 3) {
        cfg.RELTOL = pow(t, -8, -1);
        cfg.VNTOL = pow(t, -9, 0);
        cfg.ABSTOL = pow(t, -12, 0);
    }
    let dim = n + m;
    let mut x = vec![0.0; dim];
    let mut y = vec![0.0; dim];
    let mut want = true;
    let mut near = false;
    let calm = t.chance(1, 2); // nothing over the limit
    for k in 1..dim {
        let abs = if k < n { cfg.VNTOL } else { cfg.ABSTOL };
        x[k] = match t.weighted(&[3, 2, 1]) {
            _ if exact => t.int(-64, 64) as f64 / 8.0,
            0 => (t.unit() - 0.5) * 20.0,
            1 => abs * (t.unit() - 0.5) * 100.0,
            _ => 0.0,
        };
        if t.chance(1, 30) && !exact {
            x[k] *= 1e6;
        }
        let limit = x[k].abs() * cfg.RELTOL + abs;
        let f: f64 = if exact {
            if t.chance(1, 2) { 1.0 } else { 0.0 }
        } else if calm {
            *t.pick(&[0.0, 0.5, 0.9, 0.99, 0.999])
        } else {
            *t.pick(&[0.0, 0.0, 0.5, 0.9, 0.99, 0.999, 1.001, 1.01, 1.1, 2.0, 1e3])
        };
        let d = f * limit;
        y[k] = if t.chance(1, 2) { x[k] + d } else { x[k] - d };
        let real = (x[k] - y[k]).abs();
        if !exact && (real - limit).abs() < 1e-6 * limit {
            // rounding decides: too close
            y[k] = x[k];
            continue;
        }
        if real > limit {
            want = false;
        }
        near |= (0.9..1.1).contains(&f);
    }
    let bad = t.chance(1, 3);
    let mut how = vec![];
    if bad {
        for _ in 0..t.usize(1, 2) {
            let k = t.usize(0, dim - 1);
            x[k] = *t.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            how.push((k, x[k]));
        }
    }
    ctx.show = format!("{} nodes, {} sources, RELTOL {:e} VNTOL {:e} ABSTOL {:e}\nnew {:?}\nold {:?}", n, m, cfg.RELTOL, cfg.VNTOL, cfg.ABSTOL, x, y);
    let got = guarded(|| e.convergence_check(&x, &y, &cfg))?;
    match got {
        Err(_) => ensure!(bad, "reported as divergent although all is finite"),
        Ok(c) => {
            ensure!(!bad, "not reported as divergent ({:?} at {:?})", c, how);
            ensure!(c == want, "converged: {}, expected {}", c, want);
        }
    }
    ctx.label(if bad { "non-finite" } else if want { "converged" } else { "not converged" });
    if exact {
        ctx.label("exactly at the limit");
    }
    ctx.nontrivial = bad || near || exact;
    Ok(Verdict::Pass)
}

// ------------------------------------------------------------------- C23

pub const C23: Prop = Prop {
    id: "C23",
    rule: "a history with at least two different names, an alias and a table",
    quick: 1000000,
    thorough: 20000000,
    f: c23,
};

fn c23(t: &mut Tape, ctx: &mut Ctx) -> Res {
    const POOL: [&str; 30] = [
        "a", "b", "A", "n1", "n10", "1", "2", "00", "gnd", "GND", "0", "Gnd", "gnd1", "X1.a", "X1.b", "X1.gnd", "X1.0", "X2.GND", "X1.X2.a", "X1.X2.0", "X1.Gnd", "gnd.a",
        "0.b", "X1.00", "X2.a", "a.b", "X1.X2.X3.n", "Z", "_", "X10.a",
    ];
    let ground = |s: &str| {
        let last = s.rsplit('.').next().unwrap_or(s);
        last == "0" || last == "gnd" || last == "GND"
    };
    let mut c = guarded(Circuit::new)?;
    let mut model: BTreeMap<String, usize> = BTreeMap::new();
    model.insert("gnd".into(), 0);
    let mut next = 1usize;
    let mut built: Option<BTreeMap<usize, String>> = None;
    let n = t.usize(1, 40);
    let (mut aliases, mut refused) = (0, 0);
    for step in 0..n {
        let op = t.weighted(&[5, 4, 3, 1]);
        let name = t.pick(&POOL).to_string();
        let resolve = |model: &BTreeMap<String, usize>, s: &str| if ground(s) { Some(0) } else { model.get(s).copied() };
        match op {
            0 => {
                ctx.show += &format!("add_node {}\n", name);
                let got = guarded(|| c.add_node(&name))?;
                let want = match resolve(&model, &name) {
                    Some(k) => k,
                    None => {
                        model.insert(name.clone(), next);
                        next += 1;
                        next - 1
                    }
                };
                ensure!(got == want, "step {}: add_node('{}') is {}, expected {}", step, name, got, want);
            }
            1 => {
                let nid = t.usize(0, next - 1);
                ctx.show += &format!("add_node_alias {} {}\n", name, nid);
                let there = resolve(&model, &name);
                let r = guarded(|| c.add_node_alias(&name, nid));
                match there {
                    Some(k) if k != nid => {
                        ensure!(r.is_err(), "step {}: '{}' is node {}, and could be made an alias of {}", step, name, k, nid);
                        refused += 1;
                    }
                    _ => {
                        if let Err(e) = r {
                            fail!("step {}: add_node_alias('{}', {}) is refused: {}", step, name, nid, e);
                        }
                        model.insert(name.clone(), nid);
                        aliases += 1;
                    }
                }
            }
            2 => {
                ctx.show += &format!("get_node_id {}\n", name);
                let got = guarded(|| c.get_node_id(&name))?;
                let want = resolve(&model, &name);
                ensure!(got == want, "step {}: get_node_id('{}') is {:?}, expected {:?}", step, name, got, want);
            }
            _ => {
                ctx.show += "build_node_id_lut\n";
                guarded(|| c.build_node_id_lut())?;
                let mut l: BTreeMap<usize, String> = BTreeMap::new();
                for (nm, id) in &model {
                    let key = |s: &str| (s.matches('.').count(), s.to_string());
                    match l.get(id) {
                        Some(o) if key(o) <= key(nm) => {}
                        _ => {
                            l.insert(*id, nm.clone());
                        }
                    }
                }
                let got: BTreeMap<usize, String> = c.node_id_lut.iter().map(|(k, v)| (*k, v.clone())).collect();
                ensure!(got == l, "step {}: the table is {:?}, expected {:?}", step, got, l);
                built = Some(l);
            }
        }
        // nothing that was there has moved
        for (nm, id) in &model {
            let want = if ground(nm) { 0 } else { *id };
            let got = guarded(|| c.get_node_id(nm))?;
            ensure!(got == Some(want), "step {}: '{}' is now {:?}, expected {}", step, nm, got, want);
        }
        ensure!(c.count_nodes() == next, "step {}: {} nodes, expected {}", step, c.count_nodes(), next);
    }
    if refused > 0 {
        ctx.label("an alias was refused");
    }
    ctx.nontrivial = model.len() >= 3 && aliases > 0 && built.is_some();
    Ok(Verdict::Pass)
}
