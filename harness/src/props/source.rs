//! C04: source waveforms

use super::*;
use crate::deck::{self, scale};
use crate::model::Src;
use crate::num;
use crate::tape::Rng;
use crate::run::{guarded, Res, Verdict};
use crate::{ensure, fail};
use tiny_spice::circuit::Element;

pub const C04: Prop = Prop {
    id: "C04",
    rule: "a SIN source with amplitude and frequency, or a PWL source with at least two points, looked at at ten times or more",
    quick: 500000,
    thorough: 5000000,
    f: c04,
};

fn ulps(x: f64, k: i64) -> f64 {
    if x == 0.0 {
        return if k > 0 { f64::from_bits(k as u64) } else { 0.0 };
    }
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}

fn eval(e: &Element, t: f64) -> Option<f64> {
    match e {
        Element::Isin(s) => Some(s.evaluate(t)),
        Element::Vsin(s) => Some(s.evaluate(t)),
        Element::Vpwl(s) => Some(s.evaluate(t)),
        _ => None,
    }
}

fn c04(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let kind = t.weighted(&[2, 2, 5, 3]);
    // 0: V SIN, 1: I SIN, 2: PWL, 3: PWL with all numbers binary fractions
    let (text, src) = match kind {
        0 | 1 => deck::sin_src(t, (-2, 3), &sc),
        2 => deck::pwl_src(t, (-2, 3), &sc),
        _ => dyadic(t),
    };
    // a negative delay: the pattern started before the simulation
    let (text, src) = match src {
        Src::Pwl { pts, td, rep } if td > 0.0 && t.chance(1, 6) => {
            let text = text.replace("td=+", "td=").replace("td=", "td=-");
            ctx.label("with negative delay");
            (text, Src::Pwl { pts, td: -td, rep })
        }
        src => (text, src),
    };
    let r = num::number(t, 0, 5, false);
    let name = if kind == 1 { "Isrc" } else { "Vsrc" };
    let n = t.usize(5, 40) as f64;
    let span = match &src {
        Src::Pwl { pts, td, .. } => (pts[pts.len() - 1].0.max(1e-12)) * (1.0 + 3.0 * t.unit()) + td.abs(),
        Src::Sin { freq, .. } if *freq > 0.0 => (0.2 + 3.0 * t.unit()) / freq,
        _ => 1.0,
    };
    let step = num::exact(span / n);
    let stop = num::exact(span);
    let deck = format!("source\n{} n1 0 {}\nR1 n1 0 {}\n.control\ntran {} {}\n.endc\n", name, text, r.text, step.text, stop.text);
    ctx.show = deck.clone();
    let d = sim::read_text(ctx, &deck)?;
    let el = match d.ckt.elements.iter().find(|e| !matches!(e, Element::R(_))) {
        Some(e) => e.clone(),
        None => fail!("the source is not in the circuit"),
    };

    // by itself, at all sorts of times
    let mut times: Vec<(f64, bool)> = vec![(0.0, true)];
    match &src {
        Src::Pwl { pts, td, rep } => {
            let last = pts[pts.len() - 1].0;
            let mut marks = vec![*td];
            // (a long pattern: only some of its points)
            let some: Vec<(f64, f64)> = if pts.len() <= 100 { pts.clone() } else { (0..60).map(|_| *t.pick(pts)).collect() };
            for p in &some {
                marks.push(td + p.0);
                if *rep {
                    let k = match t.weighted(&[3, 2, 1]) {
                        0 => t.int(1, 3),
                        1 => t.int(1, 50),
                        _ => t.int(1, 100000),
                    } as f64;
                    marks.push(td + p.0 + k * last);
                    marks.push(td + k * last);
                } else {
                    marks.push(td + p.0 + last * t.int(1, 9) as f64);
                }
            }
            for m in marks {
                times.push((m, true));
                times.push((ulps(m, 1), false));
                times.push((ulps(m, -1), false));
            }
            if pts.len() > 100 {
                ctx.label("more than 100 points");
            }
            for _ in 0..10 {
                times.push((t.unit() * (td + last * 2.0), false));
                times.push((t.unit() * (td + last * if *rep { 100.0 } else { 10.0 }), false));
            }
            times.push((td * t.unit(), false));
            if *td > 0.0 {
                ctx.label("with delay");
            }
            if *rep {
                ctx.label("repeating");
            }
            if pts[0].0 > 0.0 {
                ctx.label("first point after zero");
            }
        }
        Src::Sin { freq, .. } => {
            let p = if *freq > 0.0 { 1.0 / freq } else { 1.0 };
            for k in 0..8 {
                times.push((p * k as f64 / 4.0, false));
            }
            for _ in 0..8 {
                times.push((p * 3.0 * t.unit(), false));
            }
            times.push((p * 1000.0 * t.unit(), false));
        }
        _ => {}
    }
    times.retain(|x| x.0 >= 0.0);
    if let Src::Pwl { td, .. } = &src {
        if *td < 0.0 {
            // in the middle of the pattern, not at a breakpoint of it
            times[0].1 = false;
        }
    }
    for (tm, at_mark) in &times {
        let got = guarded(|| eval(&el, *tm))?;
        let got = match got {
            Some(x) => x,
            None => fail!("the source has become {}", el),
        };
        let (lo, hi) = src.range(*tm);
        ensure!(got >= lo && got <= hi, "{:?} is {:e} at {:e} s, it should be {:e} (between {:e} and {:e})", src, got, tm, src.at(*tm), lo, hi);
        if kind == 3 && *at_mark {
            // no rounding anywhere here
            let want = src.at(*tm);
            ensure!(got == want, "{:?} is {:e} at {:e} s, it should be exactly {:e}", src, got, tm, want);
            ctx.label("exact breakpoint");
        }
    }
    ctx.label(["V SIN", "I SIN", "PWL", "PWL in binary fractions"][kind]);
    if let Element::Vpwl(ref s) = el {
        // without any points there's nothing to be but 0
        let mut none = s.clone();
        none.pat.clear();
        let v = guarded(|| none.evaluate(times[times.len() / 2].0))?;
        ensure!(v == 0.0, "a PWL source without points is {:e}", v);
    }

    // and in a circuit
    let value = |s: f64| if kind == 1 { -s * r.val } else { s };
    let nid = match d.ckt.get_node_id("n1") {
        Some(k) => k,
        None => fail!("no node n1"),
    };
    let (x, _) = sim::op(&d.ckt, &d.cfg)?;
    let slack = 1e-9 * (if kind == 1 { r.val } else { 1.0 }) * src.size();
    let fits = |v: f64, tm: f64| {
        let (lo, hi) = src.range(tm);
        let (a, b) = (value(lo), value(hi));
        v >= a.min(b) - slack && v <= a.max(b) + slack
    };
    ensure!(x.len() > nid && fits(x[nid], 0.0), "in the operating point n1 is at {:?}, the source starts at {:e}", x.get(nid), src.at(0.0));
    if t.chance(1, 2) {
        let (w, _) = sim::tran(ctx, &d.ckt, &d.cfg)?;
        for (tm, row) in w.t.iter().zip(&w.x) {
            ensure!(fits(row[nid], *tm), "at {:e} s n1 is at {:e} V, the source has the value {:e}", tm, row[nid], src.at(*tm));
        }
        ctx.label("simulated");
    }
    ctx.nontrivial = match &src {
        Src::Pwl { pts, .. } => pts.len() >= 2,
        Src::Sin { va, freq, .. } => *va != 0.0 && *freq > 0.0,
        _ => false,
    } && times.len() >= 10;
    Ok(Verdict::Pass)
}

/// A PWL source whose times and values are small binary fractions, so that the
/// arithmetic at its breakpoints is exact
fn dyadic(t: &mut Tape) -> (String, Src) {
    let q = 1.0 / 1024.0;
    let n = if t.chance(1, 150) { t.usize(100, 3000) } else { t.usize(1, 5) };
    let mut ticks = if t.chance(1, 2) { 0 } else { t.int(1, 100) };
    let mut pts = vec![];
    let mut rng = Rng::new(if n > 60 { t.below(1 << 32) } else { 0 });
    for k in 0..n {
        if n > 60 {
            // (not worth shrinking one by one)
            ticks += (k > 0) as i64 + (rng.next() % 300) as i64;
            pts.push((ticks as f64 * q, (rng.next() % 129) as f64 / 8.0 - 8.0));
            continue;
        }
        if k > 0 {
            ticks += t.int(1, 300);
        }
        pts.push((ticks as f64 * q, t.int(-64, 64) as f64 / 8.0));
    }
    let td = if t.chance(1, 2) { t.int(1, 500) as f64 * q } else { 0.0 };
    let rep = pts[n - 1].0 > 0.0 && t.chance(1, 2);
    let mut s = String::from("PWL(");
    s += &pts.iter().map(|p| format!("{},{}", p.0, p.1)).collect::<Vec<_>>().join(", ");
    s += ")";
    if rep {
        s += " r=0";
    }
    if td > 0.0 {
        s += &format!(" td={}", td);
    }
    (s, Src::Pwl { pts, td, rep })
}
