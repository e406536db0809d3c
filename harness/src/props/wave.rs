//! C18: waveform files

use super::*;
use crate::deck::{flatten, net, prog, scale, ProgOpts};
use crate::model::{check, solve, At, Sol};
use crate::num;
use crate::run::{guarded, Res, Verdict};
use crate::sim::Wave;
use crate::{ensure, fail};
use std::collections::HashMap;
use std::path::Path;
use std::process::Command;
use tiny_spice::wavewriter::WaveWriter;

pub const C18: Prop = Prop {
    id: "C18",
    rule: "a file with at least four columns and two rows of which some value is neither 0 nor a small integer",
    quick: 60000,
    thorough: 600000,
    f: c18,
};

fn c18(t: &mut Tape, ctx: &mut Ctx) -> Res {
    match t.weighted(&[5, 3]) {
        0 => from_deck(t, ctx),
        _ => direct(t, ctx),
    }
}

/// Node and source columns of a waveform file, by their labels
pub struct Columns {
    pub node: Vec<usize>,
    pub src: Vec<usize>,
}

pub fn columns(w: &Wave, names: &[Vec<String>], nsrc: usize) -> Result<Columns, String> {
    if w.names.first().map(|s| s.as_str()) != Some("Time") || w.units.first().map(|s| s.as_str()) != Some("s") {
        return Err(format!("the first column is {:?} in {:?}", w.names.first(), w.units.first()));
    }
    if w.units.len() != w.names.len() {
        return Err(format!("{} names and {} units", w.names.len(), w.units.len()));
    }
    if w.names.len() != 1 + names.len() + nsrc {
        return Err(format!("{} columns for {} nodes and {} sources: {:?}", w.names.len(), names.len(), nsrc, w.names));
    }
    let mut c = Columns { node: vec![], src: vec![] };
    for (k, all) in names.iter().enumerate() {
        let dots = |s: &str| s.matches('.').count();
        let top = all.iter().map(|s| dots(s)).min().unwrap_or(0);
        let mut ok: Vec<String> = all.iter().filter(|s| dots(s) == top).map(|s| format!("v({})", s)).collect();
        if k == 0 {
            ok = vec!["v(gnd)".into(), "v(GND)".into(), "v(0)".into()];
        }
        let at: Vec<usize> = (0..w.names.len()).filter(|j| ok.contains(&w.names[*j])).collect();
        if at.len() != 1 {
            return Err(format!("{} columns for node {:?}: {:?}", at.len(), all, w.names));
        }
        if w.units[at[0]] != "V" {
            return Err(format!("column {} is in {}", w.names[at[0]], w.units[at[0]]));
        }
        c.node.push(at[0] - 1);
    }
    for j in 0..nsrc {
        let l = format!("i({})", j);
        let at: Vec<usize> = (0..w.names.len()).filter(|j| w.names[*j] == l).collect();
        if at.len() != 1 || w.units[at[0]] != "A" {
            return Err(format!("column {}: {:?}, {:?}", l, w.names, w.units));
        }
        c.src.push(at[0] - 1);
    }
    Ok(c)
}

fn from_deck(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let vary = t.chance(2, 3);
    let (flat, names, map, ckt, cfg);
    if t.chance(1, 2) {
        let o = ProgOpts {
            defs: (1, 5),
            caps: true,
            diodes: t.chance(1, 6),
            dep: t.chance(1, 3),
            sources: true,
            vary,
            params: 1,
            max_els: if t.chance(1, 8) { 120 } else { 40 },
            dup_names: false,
            any_value: false,
        };
        let p = prog(t, &o, &sc);
        let step = num::number(t, sc.t.0 - 2, sc.t.1 + 1, false);
        let stop = num::exact(step.val * t.int(1, 4) as f64);
        let text = p.deck(t, &[format!("tran {} {}", step.text, stop.text)]);
        ctx.show = text.clone();
        let mut fl = flatten(&p, 0.0);
        set_vt(&mut fl.flat, sim::thermal_voltage(27.0));
        let d = sim::read_text(ctx, &text)?;
        map = sim::match_up(&fl.flat, &fl.names, &d.ckt)?;
        flat = fl.flat;
        names = fl.names;
        ckt = d.ckt;
        cfg = d.cfg;
        ctx.label("hierarchical deck");
    } else {
        let mut o = opts_small(t);
        o.caps = (0, 4);
        o.vary = vary;
        let net = net(t, &o, &sc);
        let tm = tran::times(t, &sc);
        let step = tm.step;
        let long = t.chance(1, 300);
        let stop = num::exact(step.val * if long { t.int(200, 20000) } else { t.int(1, 4) } as f64);
        let m = make(ctx, &net, &format!("tran {} {}", step.text, stop.text), false)?;
        names = net.name_lists();
        flat = net.flat;
        map = m.map;
        ckt = m.ckt;
        cfg = m.cfg;
    }
    let (w, st) = sim::tran(ctx, &ckt, &cfg)?;
    let c = columns(&w, &names, map.nsrc)?;
    ensure!(!w.t.is_empty(), "no rows");
    ensure!(*w.t.last().unwrap() == st.end || st.end == 0.0, "the last row is at {:e}, the run ended at {:e}", w.t.last().unwrap(), st.end);
    let linear = count(&flat, 'D') == 0;
    let well = linear && matches!(solve(&flat, &At::dc(0.0)), Some((_, cond)) if cond < 1e9);
    let mut odd = false;
    if well {
        let sols: Vec<Sol> = w
            .x
            .iter()
            .map(|r| Sol { v: c.node.iter().map(|k| r[*k]).collect(), i: map.src.iter().map(|s| r[c.src[*s]]).collect() })
            .collect();
        for k in 0..sols.len() {
            let at = if k == 0 {
                At::dc(w.t[0])
            } else {
                At { t: w.t[k], prev: Some((&sols[k - 1], w.t[k] - w.t[k - 1])), reltol: 0.0, vntol: 0.0 }
            };
            let e = check(&flat, &sols[k], &at).map_err(|e| format!("row {} of the file, by its labels {:?}: {}", k, w.names, e))?;
            ctx.maximum("error/tolerance", e);
            odd |= sols[k].v.iter().any(|v| v.fract() != 0.0);
        }
        ctx.label("rows checked against the circuit");
    }
    if names.iter().any(|n| n[0].contains('.')) {
        ctx.label("has nodes inside subcircuits");
    }
    ctx.nontrivial = odd && w.names.len() >= 4 && w.t.len() >= 2;
    if t.chance(1, 16) {
        loader(t, ctx, &ctx.dir.join("tran.dat"), &w)?;
    }
    Ok(Verdict::Pass)
}

/// A finite number of any kind
fn any_finite(t: &mut Tape) -> f64 {
    let v = match t.weighted(&[2, 4, 3, 1, 1]) {
        0 => t.int(-9, 9) as f64,
        1 => {
            let m = t.below(1 << 53) as f64 / (1u64 << 53) as f64;
            (1.0 + m) * 10f64.powi(t.int(-15, 9) as i32)
        }
        2 => f64::from_bits((t.below(1 << 32) << 32) | t.below(1 << 32)),
        3 => *t.pick(&[0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, -f64::MAX, f64::EPSILON, 5e-324, 0.1, 1.0 / 3.0, 1e22, 1e23, 9007199254740993.0]),
        _ => t.unit(),
    };
    let v = if v.is_finite() { v } else { 1.5 };
    if t.chance(1, 2) {
        -v
    } else {
        v
    }
}

fn direct(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let wide = t.chance(1, 12);
    let n = t.usize(1, if wide { 120 } else { 8 });
    let m = t.usize(0, if wide { 120 } else { 4 });
    let names = {
        let mut v = vec!["gnd".to_string()];
        v.extend(crate::deck::node_names(t, n - 1));
        // names of the inside of subcircuits have dots
        for (k, s) in v.iter_mut().enumerate() {
            if k > 0 && t.chance(1, 4) {
                *s = format!("X{}.{}", k, s);
            }
        }
        v
    };
    let rows = t.usize(1, 6);
    let data: Vec<Vec<f64>> = (0..rows).map(|_| (0..1 + n + m).map(|_| any_finite(t)).collect()).collect();
    ctx.show = format!("names {:?}, {} sources\n{:?}", names, m, data);
    let lut: HashMap<usize, String> = names.iter().cloned().enumerate().collect();
    let sub = if t.chance(1, 3) { "some/where/tran.dat" } else { "tran.dat" };
    let path = ctx.dir.join(sub);
    let _ = std::fs::remove_file(&path);
    guarded(|| {
        let mut w = WaveWriter::new(path.to_str().unwrap(), &lut).expect("a writer");
        w.header(n, m);
        for r in &data {
            w.dump_vector(r[0], &r[1..]);
        }
    })?;
    let w = sim::parse_wave(&path)?;
    let mut want = vec!["Time".to_string()];
    want.extend(names.iter().map(|s| format!("v({})", s)));
    want.extend((0..m).map(|j| format!("i({})", j)));
    ensure!(w.names == want, "names are {:?}, expected {:?}", w.names, want);
    let mut units = vec!["s"];
    units.extend(vec!["V"; n]);
    units.extend(vec!["A"; m]);
    ensure!(w.units == units, "units are {:?}", w.units);
    ensure!(w.t.len() == rows, "{} rows in the file, {} were written", w.t.len(), rows);
    for k in 0..rows {
        ensure!(w.t[k].to_bits() == data[k][0].to_bits(), "time {:e} reads back as {:e}", data[k][0], w.t[k]);
        for j in 0..n + m {
            ensure!(
                w.x[k][j].to_bits() == data[k][1 + j].to_bits(),
                "{:e} in column {} reads back as {:e}", data[k][1 + j], want[1 + j], w.x[k][j]
            );
        }
    }
    ctx.label("direct use of the writer");
    if m > 10 || n > 10 {
        ctx.label("more than ten columns of a kind");
    }
    ctx.nontrivial = n + m >= 3 && rows >= 2 && data.iter().flatten().any(|x| x.fract() != 0.0);
    if t.chance(1, 16) {
        loader(t, ctx, &path, &w)?;
    }
    Ok(Verdict::Pass)
}

const SCRIPT: &str = r#"
import sys, struct, importlib.util
spec = importlib.util.spec_from_file_location("waveforms", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
for e in sys.argv[3:]:
    w = m.load(sys.argv[2]) if e == "default" else m.load(sys.argv[2], e)
    print("NAMES", w.x_name, w.x_unit, w.y_name, w.y_unit)
    print("X", *[struct.pack(">d", float(v)).hex() for v in w.x])
    print("Y", *[struct.pack(">d", float(v)).hex() for v in w.y])
"#;

/// The bundled loader on the same file
fn loader(t: &mut Tape, ctx: &mut Ctx, file: &Path, w: &Wave) -> Result<(), Stop> {
    let n = w.names.len();
    let mut exprs: Vec<(String, usize, Option<usize>)> = vec![];
    for _ in 0..3 {
        let a = t.usize(1, n - 1);
        let b = t.usize(1, n - 1);
        exprs.push(match t.weighted(&[2, 2, 1, 1]) {
            0 => (format!("{}", a), a, None),
            1 => (format!("{}-{}", a, b), a, Some(b)),
            2 => (format!(" {} - {} ", a, b), a, Some(b)),
            _ => ("default".to_string(), 1, None),
        });
    }
    let out = Command::new("python3")
        .args(["-B", "-c", SCRIPT, "/repo/bin/r8n/waveforms.py"])
        .arg(file)
        .args(exprs.iter().map(|e| &e.0))
        .output()
        .expect("python3");
    let txt = String::from_utf8_lossy(&out.stdout).into_owned();
    let lines: Vec<&str> = txt.lines().collect();
    ensure!(
        out.status.success() && lines.len() == 3 * exprs.len(),
        "the loader fails on {:?}: {}", exprs, String::from_utf8_lossy(&out.stderr)
    );
    for (k, (e, a, b)) in exprs.iter().enumerate() {
        let head = format!("NAMES Time s {} {}", w.names[*a], w.units[*a]);
        ensure!(lines[3 * k] == head, "loading '{}' gives '{}', expected '{}'", e, lines[3 * k], head);
        let bits = |s: &str| -> Vec<u64> { s.split(' ').skip(1).map(|h| u64::from_str_radix(h, 16).unwrap_or(1)).collect() };
        let x: Vec<u64> = w.t.iter().map(|v| v.to_bits()).collect();
        ensure!(bits(lines[3 * k + 1]) == x, "loading '{}' gives other times than the file has", e);
        let got = bits(lines[3 * k + 2]);
        ensure!(got.len() == x.len(), "loading '{}' gives {} values, {} rows", e, got.len(), x.len());
        for (j, r) in w.x.iter().enumerate() {
            let want = match b {
                None => r[a - 1],
                Some(b) => r[a - 1] - r[b - 1],
            };
            let g = f64::from_bits(got[j]);
            if !(g == want || (g.is_nan() && want.is_nan())) {
                fail!("loading '{}' gives {:e} in row {}, expected {:e}", e, g, j, want);
            }
        }
    }
    ctx.label("r8n loader");
    Ok(())
}
