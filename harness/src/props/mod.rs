//! The properties, one function per property: generate a case, run it, judge it

use crate::deck::{Net, NetOpts};
use crate::model::{linearized, solve, At, El, Flat, Sol};
use crate::run::{Ctx, Prop, Stop};
use crate::sim::{self, Map};
use crate::tape::Tape;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;

mod cli;
mod dc;
mod diode;
mod edit;
mod engine;
mod hier;
mod number;
mod log;
mod plot;
mod reader;
mod source;
mod tran;
mod wave;
mod whole;

pub static ALL: &[Prop] = &[
    dc::C01, dc::C02, diode::C03, source::C04, tran::C05, tran::C06, tran::C07, tran::C08, tran::C09, hier::C10, hier::C11,
    hier::C12, number::C13, reader::C14, reader::C15, reader::C16, cli::C17, wave::C18, cli::C19, engine::C20, engine::C21,
    engine::C22, engine::C23, dc::C24, cli::C25, edit::C26, plot::C27, log::C28, whole::C29,
];

/// A circuit under test, and how its unknowns are numbered
pub struct Made {
    pub ckt: Circuit,
    pub cfg: Configuration,
    pub map: Map,
    pub api: bool,
}

/// Make the circuit of a net, through a deck or (if asked for) the library API
pub fn make(ctx: &mut Ctx, net: &Net, control: &str, api: bool) -> Result<Made, Stop> {
    make_at(ctx, net, control, api, 27.0)
}

/// Give diodes of a circuit that is built with the API other saturation currents,
/// and all of them another temperature, which is returned
pub fn other_diodes(t: &mut Tape, f: &mut Flat) -> f64 {
    for e in f.els.iter_mut() {
        if let El::D { isat, .. } = e {
            if t.chance(2, 3) {
                *isat = crate::num::number(t, -16, -5, false).val;
            }
        }
    }
    let tdegc = *t.pick(&[27.0, 27.0, 0.0, -40.0, 85.0, 125.0]);
    set_vt(f, sim::thermal_voltage(tdegc));
    tdegc
}

pub fn make_at(ctx: &mut Ctx, net: &Net, control: &str, api: bool, tdegc: f64) -> Result<Made, Stop> {
    let text = net.deck(control);
    if api {
        let isat: Vec<f64> = net.flat.els.iter().filter_map(|e| if let El::D { isat, .. } = e { Some(*isat) } else { None }).collect();
        ctx.show = format!("(circuit built with the library API; diodes at {} C with i_sat {:?}; unconnected nodes {:?})\n{}", tdegc, isat, net.spare, text);
        ctx.label("built with the API");
        let ckt = crate::run::guarded(|| sim::build(&net.flat, &net.names, &net.spare, tdegc))?;
        let map = sim::match_up_at(&net.flat, &net.name_lists(), &ckt, tdegc)?;
        Ok(Made { ckt, cfg: Configuration::new(), map, api })
    } else {
        ctx.show = text.clone();
        ctx.label("read from a deck");
        let d = sim::read_text(ctx, &text)?;
        let map = sim::match_up(&net.flat, &net.name_lists(), &d.ckt)?;
        Ok(Made { ckt: d.ckt, cfg: d.cfg, map, api })
    }
}

pub fn count(f: &Flat, letter: char) -> usize {
    f.els.iter().filter(|e| e.letter() == letter).count()
}

/// Put the thermal voltage of the model under test into the diodes
pub fn set_vt(f: &mut Flat, vt: f64) {
    for e in f.els.iter_mut() {
        if let El::D { vt: x, .. } = e {
            *x = vt;
        }
    }
}

pub fn kinds(ctx: &mut Ctx, f: &Flat) {
    for (l, n) in [('E', "has a VCVS"), ('G', "has a VCCS"), ('C', "has capacitors"), ('D', "has diodes"), ('V', "has voltage sources"), ('I', "has current sources")] {
        if count(f, l) > 0 {
            ctx.label(n);
        }
    }
}

pub fn opts_small(t: &mut Tape) -> NetOpts {
    let big = t.chance(1, 12);
    NetOpts { nodes: (1, if big { 40 } else { 8 }), ..NetOpts::linear() }
}

/// Do the equations have one solution (with the diodes just conducting)? Looks at
/// the operating point, and for a transient also at steps of length `dt`.
pub fn well_posed(f: &Flat, dt: Option<f64>, limit: f64) -> bool {
    let l = linearized(f, |_, _| 0.0);
    let ok = |at: &At| matches!(solve(&l, at), Some((_, cond)) if cond < limit);
    if !ok(&At::dc(0.0)) {
        return false;
    }
    if let Some(dt) = dt {
        let nv = f.els.iter().filter(|e| e.is_vtype()).count();
        let rest = Sol { v: vec![0.0; f.n], i: vec![0.0; nv] };
        return ok(&At { t: 0.0, prev: Some((&rest, dt)), reltol: 0.0, vntol: 0.0 });
    }
    true
}

/// Voltage error to expect from rounding where currents much bigger than those of
/// the resistors cancel
pub fn noise(f: &Flat, dt: Option<f64>, v: f64, i: f64) -> f64 {
    let mut r_max: f64 = 0.0;
    let mut g_max: f64 = 0.0;
    for e in &f.els {
        match e {
            El::R { v, .. } => {
                r_max = r_max.max(*v);
                g_max = g_max.max(1.0 / v);
            }
            El::C { v, .. } => {
                if let Some(dt) = dt {
                    g_max = g_max.max(v / dt)
                }
            }
            El::G { k, .. } => g_max = g_max.max(k.abs()),
            _ => {}
        }
    }
    4e-16 * f.n as f64 * r_max * (g_max * v + i)
}
