//! C03: the diode model by itself

use super::*;
use crate::ensure;
use crate::model::shockley;
use crate::num::close;
use crate::run::{Res, Verdict};
use tiny_spice::circuit::Diode;

pub const C03: Prop = Prop {
    id: "C03",
    rule: "a history of at least three biases, one of them forward by more than five thermal voltages",
    quick: 3000000,
    thorough: 60000000,
    f: c03,
};

const BOLTZMANN: f64 = 1.380649e-23;
const CHARGE: f64 = 1.602176634e-19;

fn c03(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let tdegc = match t.weighted(&[3, 3, 1]) {
        0 => 27.0,
        1 => t.int(-80, 180) as f64,
        _ => -200.0 + 500.0 * t.unit(),
    };
    let e = t.int(-18, -3) as i32;
    let isat = [1.0, 2.5, 9.99][t.usize(0, 2)] * 10f64.powi(if e == -3 { -4 } else { e });
    let vt = sim::thermal_voltage(tdegc);
    ctx.show = format!("Isat = {:e} A, {} C", isat, tdegc);
    ensure!(vt.is_finite() && vt > 0.0, "thermal voltage is {}", vt);
    let d = Diode::new("D", 1, 0, isat, tdegc);
    let n = t.usize(1, 14);
    let mut last = 0.0;
    let mut forward = false;
    let mut limited_any = false;
    for k in 0..n {
        let v = match t.weighted(&[3, 3, 2, 2, 2, 1]) {
            0 => vt * t.int(-40, 60) as f64 * 0.5,
            1 => vt * (30.0 * t.unit()),
            2 => last + vt * (t.unit() - 0.5) * 8.0,
            3 => vt * t.int(-600, 600) as f64,
            4 => -100.0 * t.unit(),
            _ => last,
        };
        let v = v.min(500.0 * vt);
        last = v;
        ctx.show += &format!("\nbias {}: {:e} V", k, v);
        let settle = t.chance(1, 3);
        let mut tries = 0;
        loop {
            let (g, i) = d.linearize(v, 0.0);
            let lim = d.is_limited();
            tries += 1;
            ensure!(g.is_finite() && i.is_finite(), "linear model at {:e} V is g = {}, i = {}", v, g, i);
            ensure!(g >= 1e-12, "conductance {:e} S at {:e} V is less than the minimum", g, v);
            if !lim {
                // the tangent at the bias itself
                let want_i = shockley(isat, vt, v);
                let want_g = (isat / vt * (v / vt).exp()).max(1e-12);
                let got_i = g * v + i;
                let slack = 1e-9 * want_i.abs() + 1e-14 * (g * v).abs() + 1e-13 * isat;
                ensure!((got_i - want_i).abs() <= slack, "at {:e} V the linear model has the current {:e} A, the diode equation says {:e} A (bias {})", v, got_i, want_i, k);
                ensure!(close(g, want_g, 1e-9), "at {:e} V the conductance is {:e} S, the slope is {:e} S (bias {})", v, g, want_g, k);
                break;
            }
            limited_any = true;
            // somewhere else on the curve, below the bias asked for
            let vj = vt * (g * vt / isat).ln();
            if g > 1.000001e-12 {
                ensure!(vj < v, "the bias {:e} V is 'limited' to {:e} V (bias {})", v, vj, k);
                let want_i = shockley(isat, vt, vj);
                let got_i = g * vj + i;
                ensure!(
                    (got_i - want_i).abs() <= 1e-9 * want_i.abs() + 1e-12 * (g * vj).abs() + 1e-12 * isat,
                    "limited from {:e} V to {:e} V the linear model has the current {:e} A, the diode equation says {:e} A (bias {})",
                    v, vj, got_i, want_i, k
                );
            }
            if !settle {
                break;
            }
            ensure!(tries < 3000, "the bias {:e} V is still limited (to {:e} V) after {} tries", v, vj, tries);
        }
        ctx.maximum("tries to settle", tries as f64);
        if v > 5.0 * vt {
            forward = true;
        }
    }
    if limited_any {
        ctx.label("limiting");
    }
    // a copy has the state of the original
    if t.chance(1, 4) {
        let c = d.clone();
        let v = vt * t.int(-20, 40) as f64;
        let (a, b) = (d.linearize(v, 0.0), c.linearize(v, 0.0));
        ensure!(a == b && d.is_limited() == c.is_limited(), "a clone of the diode linearizes to {:?}, the diode to {:?} at {:e} V", b, a, v);
    }
    ctx.nontrivial = n >= 3 && forward;

    let kelvin = tdegc + 273.15;
    let expect = BOLTZMANN * kelvin / CHARGE;
    if !close(vt, expect, 0.005) {
        let msg = format!("thermal voltage at {} C is {:.6} V, k*T/q is {:.6} V", tdegc, vt, expect);
        // 363 instead of 273
        if close(vt, 1.380_648_8e-23 / 1.603e-19 * (363.0 + tdegc), 1e-6) {
            return Err(Stop::Known { key: "vt-offset-363", msg });
        }
        return Err(Stop::Fail(msg));
    }
    Ok(Verdict::Pass)
}
