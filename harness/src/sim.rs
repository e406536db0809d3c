//! Driving the code under test

use crate::model::{El, Flat, Sol, Src};
use crate::num::close;
use crate::run::{guarded, Ctx};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

use tiny_spice::analysis::{Configuration, Statistics};
use tiny_spice::circuit::{Circuit, CurrentSourceSine, Diode, Element, VoltageSourcePwl, VoltageSourceSine};
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

/// kT/q as the diode model has it at this temperature
pub fn thermal_voltage(tdegc: f64) -> f64 {
    let isat = 1e-6;
    let (g, _) = Diode::new("vt", 1, 0, isat, tdegc).linearize(0.0, 0.0);
    isat / g
}

pub fn write_deck(ctx: &Ctx, name: &str, text: &str) -> PathBuf {
    let path = ctx.dir.join(name);
    if let Some(d) = path.parent() {
        let _ = fs::create_dir_all(d);
    }
    fs::write(&path, text).expect("write deck");
    path
}

pub struct Deck {
    pub ckt: Circuit,
    pub cfg: Configuration,
}

/// Read and expand a deck. Err if it is refused in any way.
pub fn read_path(path: &Path) -> Result<Deck, String> {
    guarded(|| {
        let mut r = Reader::new();
        if r.read(path) {
            return Err("the reader reports errors".to_string());
        }
        let ckt = r.get_expanded_circuit();
        Ok(Deck { ckt, cfg: r.configuration().clone() })
    })
    .unwrap_or_else(Err)
}

pub fn read_text(ctx: &Ctx, text: &str) -> Result<Deck, String> {
    let p = write_deck(ctx, "deck.spi", text);
    read_path(&p)
}

/// Build a circuit with the library API. Node k of the model gets the k-th name.
/// Diodes get `tdegc` as their temperature. `spare` are nodes with nothing on them.
pub fn build(f: &Flat, names: &[String], spare: &[(usize, String)], tdegc: f64) -> Circuit {
    let mut c = Circuit::new();
    let mut id = vec![0usize; f.n];
    for k in 1..=f.n {
        for (_, s) in spare.iter().filter(|s| s.0 == k) {
            c.add_node(s);
        }
        if k < f.n {
            id[k] = c.add_node(&names[k]);
        }
    }
    for (j, el) in f.els.iter().enumerate() {
        match el {
            El::R { a, b, v } => c.add_r(format!("R{}", j), id[*a], id[*b], *v),
            El::C { a, b, v } => c.add_c(format!("C{}", j), id[*a], id[*b], *v),
            El::D { p, n, isat, .. } => c.add_d(Diode::new(&format!("D{}", j), id[*p], id[*n], *isat, tdegc)),
            El::V { p, n, s } => match s {
                Src::Dc(v) => c.add_v(id[*p], id[*n], *v),
                Src::Sin { vo, va, freq } => {
                    c.add_v_sin(VoltageSourceSine { p: id[*p], n: id[*n], vo: *vo, va: *va, freq: *freq, idx: 0 })
                }
                Src::Pwl { pts, td, rep } => c.add_v_pwl(VoltageSourcePwl {
                    p: id[*p],
                    n: id[*n],
                    pat: pts.clone(),
                    t_delay: *td,
                    repeat: if *rep { 0.0 } else { -1.0 },
                    idx: 0,
                }),
            },
            El::I { p, n, s } => match s {
                Src::Dc(v) => c.add_i(id[*p], id[*n], *v),
                Src::Sin { vo, va, freq } => {
                    c.add_i_sin(CurrentSourceSine { p: id[*p], n: id[*n], vo: *vo, va: *va, freq: *freq })
                }
                Src::Pwl { .. } => panic!("harness: no PWL current sources"),
            },
            El::E { p, n, cp, cn, k } => {
                let idx = c.v_idx_next;
                c.v_idx_next += 1;
                c.elements.push(Element::Vcvs(tiny_spice::circuit::Vcvs {
                    ident: format!("E{}", j),
                    p: id[*p],
                    n: id[*n],
                    cp: id[*cp],
                    cn: id[*cn],
                    k: *k,
                    idx,
                }));
            }
            El::G { p, n, cp, cn, k } => {
                c.elements.push(Element::Vccs(tiny_spice::circuit::Vccs::new(&format!("G{}", j), id[*p], id[*n], id[*cp], id[*cn], *k)))
            }
        }
    }
    c.build_node_id_lut();
    c
}

/// An element of the circuit under test in the harness's terms
pub fn as_el(e: &Element) -> (El, Option<usize>) {
    match e {
        Element::R(r) => (El::R { a: r.a, b: r.b, v: r.value }, None),
        Element::C(c) => (El::C { a: c.a, b: c.b, v: c.value }, None),
        Element::I(i) => (El::I { p: i.p, n: i.n, s: Src::Dc(i.value) }, None),
        Element::V(v) => (El::V { p: v.p, n: v.n, s: Src::Dc(v.value) }, Some(v.idx)),
        Element::D(d) => (El::D { p: d.p, n: d.n, isat: d.i_sat, vt: d.tdegc }, None),
        Element::Isin(s) => (El::I { p: s.p, n: s.n, s: Src::Sin { vo: s.vo, va: s.va, freq: s.freq } }, None),
        Element::Vsin(s) => (El::V { p: s.p, n: s.n, s: Src::Sin { vo: s.vo, va: s.va, freq: s.freq } }, Some(s.idx)),
        Element::Vpwl(s) => (
            El::V { p: s.p, n: s.n, s: Src::Pwl { pts: s.pat.clone(), td: s.t_delay, rep: s.repeat >= 0.0 } },
            Some(s.idx),
        ),
        Element::Vcvs(s) => (El::E { p: s.p, n: s.n, cp: s.cp, cn: s.cn, k: s.k }, Some(s.idx)),
        Element::Vccs(s) => (El::G { p: s.p, n: s.n, cp: s.cp, cn: s.cn, k: s.k }, None),
    }
}

/// How the nodes and sources of the model are numbered in the circuit under test
#[derive(Clone, Debug)]
pub struct Map {
    /// node id of every model node
    pub node: Vec<usize>,
    /// source number of every V and E element of the model, in model order
    pub src: Vec<usize>,
    /// number of sources in the circuit under test
    pub nsrc: usize,
}

fn src_close(a: &Src, b: &Src) -> bool {
    match (a, b) {
        (Src::Dc(x), Src::Dc(y)) => close(*x, *y, 1e-14),
        (Src::Sin { vo, va, freq }, Src::Sin { vo: o, va: a, freq: f }) => {
            close(*vo, *o, 1e-14) && close(*va, *a, 1e-14) && close(*freq, *f, 1e-14)
        }
        (Src::Pwl { pts, td, rep }, Src::Pwl { pts: q, td: d, rep: r }) => {
            rep == r
                && close(*td, *d, 1e-14)
                && pts.len() == q.len()
                && pts.iter().zip(q).all(|(x, y)| close(x.0, y.0, 1e-14) && close(x.1, y.1, 1e-14))
        }
        _ => false,
    }
}

/// Same kind, same terminals, same value (to rounding). The temperature of a
/// diode is in the field `vt` on both sides.
pub fn el_close(a: &El, b: &El) -> bool {
    if a.letter() != b.letter() || a.nodes() != b.nodes() {
        return false;
    }
    match (a, b) {
        (El::R { v, .. }, El::R { v: w, .. }) | (El::C { v, .. }, El::C { v: w, .. }) => close(*v, *w, 1e-14),
        (El::V { s, .. }, El::V { s: r, .. }) | (El::I { s, .. }, El::I { s: r, .. }) => src_close(s, r),
        (El::E { k, .. }, El::E { k: l, .. }) | (El::G { k, .. }, El::G { k: l, .. }) => close(*k, *l, 1e-14),
        (El::D { isat, vt, .. }, El::D { isat: i, vt: t, .. }) => close(*isat, *i, 1e-14) && close(*vt, *t, 1e-14),
        _ => false,
    }
}

/// Check that the circuit under test has exactly the elements of the model, and
/// work out the numbering. `name[k]` are the names of model node k. For diodes
/// the model's `vt` is not compared; deck diodes have Isat 1e-9 A at 27 C.
pub fn match_up(f: &Flat, names: &[Vec<String>], ckt: &Circuit) -> Result<Map, String> {
    match_up_at(f, names, ckt, 27.0)
}

/// As `match_up`, the diodes being at the given temperature
pub fn match_up_at(f: &Flat, names: &[Vec<String>], ckt: &Circuit, tdegc: f64) -> Result<Map, String> {
    let mut node = vec![usize::MAX; f.n];
    let mut back: BTreeMap<usize, usize> = BTreeMap::new();
    for k in 0..f.n {
        for nm in &names[k] {
            let id = match ckt.get_node_id(nm) {
                Some(id) => id,
                None => return Err(format!("the circuit has no node '{}'", nm)),
            };
            if node[k] == usize::MAX {
                node[k] = id;
                if let Some(other) = back.insert(id, k) {
                    return Err(format!("nodes '{}' and '{}' are the same node ({})", names[other][0], nm, id));
                }
            } else if node[k] != id {
                return Err(format!("'{}' (node {}) and '{}' (node {}) should be the same node", names[k][0], node[k], nm, id));
            }
        }
    }
    if f.n > 0 && node[0] != 0 {
        return Err(format!("ground is node {}", node[0]));
    }

    let mut have: Vec<(El, Option<usize>)> = vec![];
    for e in &ckt.elements {
        let (el, idx) = as_el(e);
        for id in el.nodes() {
            if !back.contains_key(&id) {
                return Err(format!("element {:?} is connected to node {} which isn't in the deck", el, id));
            }
        }
        have.push((el.map_nodes(|id| back[&id]), idx));
    }
    let mut src = vec![];
    let mut used = vec![false; have.len()];
    let mut by_kind: BTreeMap<(char, Vec<usize>), Vec<usize>> = BTreeMap::new();
    for (j, (h, _)) in have.iter().enumerate() {
        by_kind.entry((h.letter(), h.nodes())).or_default().push(j);
    }
    for el in &f.els {
        let want = match el {
            El::D { p, n, isat, .. } => El::D { p: *p, n: *n, isat: *isat, vt: tdegc },
            e => e.clone(),
        };
        let cands = by_kind.get(&(want.letter(), want.nodes())).cloned().unwrap_or_default();
        match cands.iter().find(|j| !used[**j] && el_close(&have[**j].0, &want)) {
            Some(&j) => {
                used[j] = true;
                if el.is_vtype() {
                    match have[j].1 {
                        Some(i) => src.push(i),
                        None => return Err("a voltage source without a number".into()),
                    }
                }
            }
            None => {
                let there: Vec<_> = cands.iter().map(|j| &have[*j].0).collect();
                return Err(format!(
                    "element {:?} (between {:?}) is missing from the circuit; those with the same terminals: {:?}",
                    want,
                    want.nodes().iter().map(|k| names[*k][0].clone()).collect::<Vec<_>>(),
                    there
                ));
            }
        }
    }
    if let Some(j) = used.iter().position(|u| !u) {
        return Err(format!(
            "the circuit has an element that isn't in the deck: {:?} between {:?}",
            have[j].0,
            have[j].0.nodes().iter().map(|k| names[*k][0].clone()).collect::<Vec<_>>()
        ));
    }
    let nsrc = src.len();
    let mut seen = vec![false; nsrc];
    for s in &src {
        if *s >= nsrc || seen[*s] {
            return Err(format!("voltage sources are numbered {:?}", src));
        }
        seen[*s] = true;
    }
    Ok(Map { node, src, nsrc })
}

impl Map {
    /// Pick the model's unknowns out of a row of the engine
    pub fn sol(&self, x: &[f64]) -> Result<Sol, String> {
        let base = match x.len().checked_sub(self.nsrc) {
            Some(b) => b,
            None => return Err(format!("{} unknowns for {} sources", x.len(), self.nsrc)),
        };
        let mut v = vec![];
        for id in &self.node {
            if *id >= base {
                return Err(format!("node {} is not among the {} node voltages", id, base));
            }
            v.push(x[*id]);
        }
        Ok(Sol { v, i: self.src.iter().map(|s| x[base + s]).collect() })
    }
}

/// Operating point of a circuit with a fresh engine
pub fn op(ckt: &Circuit, cfg: &Configuration) -> Result<(Vec<f64>, Statistics), String> {
    guarded(|| {
        let mut e = Engine::new();
        let st = e.dc_operating_point(ckt, cfg);
        (e.dc().unwrap_or_default(), st)
    })
}

/// A waveform file
#[derive(Clone, Debug, PartialEq)]
pub struct Wave {
    pub names: Vec<String>,
    pub units: Vec<String>,
    pub t: Vec<f64>,
    pub x: Vec<Vec<f64>>,
}

pub fn parse_wave(path: &Path) -> Result<Wave, String> {
    let txt = fs::read_to_string(path).map_err(|e| format!("waveform file {}: {}", path.display(), e))?;
    let mut it = txt.lines();
    let names: Vec<String> = it.next().ok_or("waveform file is empty")?.split('\t').map(|s| s.to_string()).collect();
    let units: Vec<String> = it.next().ok_or("waveform file has no units")?.split('\t').map(|s| s.to_string()).collect();
    let mut w = Wave { names, units, t: vec![], x: vec![] };
    for (k, line) in it.enumerate() {
        let mut row = vec![];
        for b in line.split('\t') {
            row.push(b.trim().parse::<f64>().map_err(|_| format!("row {}: '{}' is not a number", k, b))?);
        }
        if row.len() != w.names.len() {
            return Err(format!("row {} has {} columns, there are {} names", k, row.len(), w.names.len()));
        }
        w.t.push(row[0]);
        w.x.push(row[1..].to_vec());
    }
    Ok(w)
}

/// Transient of a circuit with a fresh engine
pub fn tran(ctx: &Ctx, ckt: &Circuit, cfg: &Configuration) -> Result<(Wave, Statistics), String> {
    let mut e = guarded(Engine::new)?;
    tran_with(ctx, &mut e, ckt, cfg)
}

pub fn tran_with(ctx: &Ctx, e: &mut Engine, ckt: &Circuit, cfg: &Configuration) -> Result<(Wave, Statistics), String> {
    let path = ctx.dir.join("tran.dat");
    let _ = fs::remove_file(&path);
    let mut cfg = cfg.clone();
    cfg.wavefile = path.to_str().unwrap().to_string();
    let st = guarded(|| e.transient_analysis(ckt, &cfg))?;
    Ok((parse_wave(&path)?, st))
}
