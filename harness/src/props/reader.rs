//! C14 to C16: layout of a deck, libraries, control block

use super::*;
use crate::deck::{flatten, prog, scale, Expr, Item, Prog, ProgOpts};
use crate::model::{check, solve, At};
use crate::num::{self, Val};
use crate::run::{guarded, Res, Verdict};
use crate::{ensure, fail};
use std::fs;
use std::path::{Path, PathBuf};
use tiny_spice::analysis::Kind;
use tiny_spice::spice::Reader;

pub const C14: Prop = Prop {
    id: "C14",
    rule: "a deck with at least two kinds of noise (comments, blank lines, odd spacing, line ends, order) in at least four places",
    quick: 300000,
    thorough: 3000000,
    f: c14,
};

fn small_prog(t: &mut Tape) -> Prog {
    let sc = scale(t);
    let o = ProgOpts {
        defs: (0, 3),
        caps: true,
        diodes: t.chance(1, 4),
        dep: t.chance(1, 2),
        sources: true,
        vary: true,
        params: 2,
        max_els: 40,
        dup_names: t.chance(1, 3),
        any_value: false,
    };
    prog(t, &o, &sc)
}

pub struct Noise {
    pub comments: bool,
    pub blanks: bool,
    pub spacing: bool,
    pub crlf: bool,
    pub n: usize,
}

fn comment_text(t: &mut Tape) -> String {
    t.pick(&[
        "", " a comment", " R9 1 0 1k", "* twice", " .endc", ".ends", " V1 = 3; more", ";;", " {x}", "\tX9 a b nosuch", " \u{3a9} \u{b5}F", "=", " tran 1 2", ".control",
    ])
    .to_string()
}

fn comment_line(t: &mut Tape) -> String {
    let ind = t.pick(&["", "", " ", "\t", "    "]);
    let mark = t.pick(&["*", "*", "**", ";", "; ", "* "]);
    format!("{}{}{}", ind, mark, comment_text(t))
}

impl Noise {
    pub fn pick(t: &mut Tape) -> Noise {
        Noise { comments: t.chance(3, 4), blanks: t.chance(2, 3), spacing: t.chance(3, 4), crlf: t.chance(1, 4), n: 0 }
    }
    /// The same lines, with noise
    pub fn lines(&mut self, t: &mut Tape, lines: &[String], out: &mut Vec<String>) {
        for l in lines {
            if self.comments && t.chance(1, 5) {
                out.push(comment_line(t));
                self.n += 1;
            }
            if self.blanks && t.chance(1, 5) {
                out.push(t.pick(&["", " ", "\t", "   \t ", "\u{c}"]).to_string());
                self.n += 1;
            }
            let mut s = String::new();
            if self.spacing && t.chance(1, 2) {
                s += t.pick(&[" ", "\t", "    ", " \t"]);
                self.n += 1;
            }
            for c in l.chars() {
                if c == ' ' && self.spacing && t.chance(1, 3) {
                    s += t.pick(&["  ", "\t", " \t ", "      ", "\u{c}", "\u{b} "]);
                    self.n += 1;
                } else {
                    s.push(c);
                }
            }
            if self.spacing && t.chance(1, 6) {
                s += t.pick(&[" ", "\t", "  "]);
            }
            if self.comments && t.chance(1, 4) {
                s += t.pick(&[";", " ;", "\t; ", " ; "]);
                s += &comment_text(t);
                self.n += 1;
            }
            out.push(s);
        }
    }
    pub fn join(&self, t: &mut Tape, lines: &[String]) -> String {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut s = lines.join(nl);
        if !t.chance(1, 5) {
            s += nl;
        }
        s
    }
    fn kinds(&self) -> usize {
        [self.comments, self.blanks, self.spacing, self.crlf].iter().filter(|x| **x).count()
    }
}

fn c14(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let vt = sim::thermal_voltage(27.0);
    let mut p = small_prog(t);
    let fl = flatten(&p, vt);
    let want = t.weighted(&[2, 1]);
    let control: Vec<String> = match want {
        0 => vec!["op".into()],
        _ => vec!["option RELTOL = 1e-5".into(), "tran 1m 20m 5m".into()],
    };
    // any order of the lines of each scope
    let reorder = t.chance(2, 3);
    if reorder {
        for k in 0..=p.defs.len() {
            let items = if k == p.defs.len() { &mut p.top } else { &mut p.defs[k].items };
            let perm = t.permutation(items.len());
            *items = perm.iter().map(|j| items[*j].clone()).collect();
        }
    }
    let mut noise = Noise::pick(t);
    let (top, defs) = p.blocks();
    let mut chunks: Vec<Vec<String>> = top.into_iter().map(|l| vec![l]).collect();
    let mut extra = defs;
    let mut c = vec![".control".to_string()];
    let mut body = control.clone();
    if t.chance(1, 3) {
        body.reverse();
    }
    c.extend(body);
    c.push(".endc".into());
    extra.push(c);
    for e in extra {
        let at = if reorder { t.usize(0, chunks.len()) } else { chunks.len() };
        chunks.insert(at, e);
    }
    let first = t.pick(&["a title", "", "R1 1 0 1k", ".control", "* comment", "; x", ".subckt foo a b", "V1 1 0 1", "\t"]).to_string();
    let mut out = vec![first];
    for c in &chunks {
        noise.lines(t, c, &mut out);
    }
    if noise.comments {
        out.push(comment_line(t));
    }
    let text = noise.join(t, &out);
    ctx.show = text.clone();
    let d = sim::read_text(ctx, &text)?;
    let map = sim::match_up(&fl.flat, &fl.names, &d.ckt)?;
    let is_op = matches!(d.cfg.kind, Some(Kind::DcOperatingPoint));
    ensure!(is_op == (want == 0) && d.cfg.kind.is_some(), "the analysis isn't the one asked for");
    if want == 1 {
        ensure!(num::close(d.cfg.TSTEP, 1e-3, 1e-15) && num::close(d.cfg.TSTOP, 20e-3, 1e-15) && num::close(d.cfg.TSTART, 5e-3, 1e-15), "times are {:e} {:e} {:e}", d.cfg.TSTEP, d.cfg.TSTOP, d.cfg.TSTART);
        ensure!(d.cfg.RELTOL == 1e-5, "RELTOL is {:e}", d.cfg.RELTOL);
    }
    // the solution by node name
    if count(&fl.flat, 'D') == 0 {
        let at = At::dc(0.0);
        if let Some((_, cond)) = solve(&fl.flat, &at) {
            if cond < 1e7 {
                let (x, _) = sim::op(&d.ckt, &d.cfg)?;
                check(&fl.flat, &map.sol(&x)?, &at)?;
                ctx.label("operating point checked");
            }
        }
    }
    for (on, l) in [(noise.comments, "comments"), (noise.blanks, "blank lines"), (noise.spacing, "spacing"), (noise.crlf, "CRLF"), (reorder, "reordered")] {
        if on {
            ctx.label(l);
        }
    }
    ctx.nontrivial = noise.n >= 4 && noise.kinds() + reorder as usize >= 2;
    Ok(Verdict::Pass)
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "a library with at least two sections, or a missing file or section",
    quick: 80000,
    thorough: 600000,
    f: c15,
};

fn c15(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let vt = sim::thermal_voltage(27.0);
    let mut p = small_prog(t);
    // lines that several scopes have in common, from one section
    let mut shared: Vec<Item> = vec![];
    let mut at_top = 0;
    let mut in_def = vec![false; p.defs.len()];
    if t.chance(1, 4) {
        for j in 0..t.usize(1, 4) {
            let v = num::number(t, 0, 4, false);
            let (a, b) = if j == 0 { ("shared_a", "0") } else { *t.pick(&[("shared_a", "shared_b"), ("gnd", "shared_b"), ("shared_b", "shared_a"), ("shared_c", "GND")]) };
            let kind = if t.chance(2, 3) { 'R' } else { 'C' };
            shared.push(Item::Prim { name: format!("{}shared{}", kind, j), kind, conns: vec![a.into(), b.into()], val: Some(Expr::Lit(v)) });
        }
        at_top = t.usize(0, 2);
        for _ in 0..at_top {
            p.top.extend(shared.iter().cloned());
        }
        for (d, here) in p.defs.iter_mut().zip(in_def.iter_mut()) {
            if t.chance(1, 2) {
                *here = true;
                d.items.extend(shared.iter().cloned());
            }
        }
        ctx.label("a section for several scopes");
    }
    let shared_lines: Vec<String> = shared.iter().map(|i| i.line(&p)).collect();
    let fl = flatten(&p, vt);
    let (mut top, mut defs) = p.blocks();
    let import = ".lib sub/common.lib common".to_string();
    top.truncate(top.len() - at_top * shared.len());
    for _ in 0..at_top {
        top.push(import.clone());
    }
    for (d, here) in defs.iter_mut().zip(&in_def) {
        if *here {
            let end = d.len() - 1;
            d.splice(end - shared.len()..end, [import.clone()]);
        }
    }
    let mut chunks: Vec<Vec<String>> = top.into_iter().map(|l| vec![l]).collect();
    for d in defs {
        let at = t.usize(0, chunks.len());
        chunks.insert(at, d);
    }
    let mut ctrl = vec![".control".to_string(), "tran 1u 100u".to_string(), ".endc".to_string()];
    if t.chance(1, 2) {
        ctrl = vec![".control".to_string(), "op".to_string(), ".endc".to_string()];
    }
    let at = t.usize(0, chunks.len());
    chunks.insert(at, ctrl.clone());

    // some chunks go to sections of libraries
    let nsec = t.usize(1, 3);
    let names: Vec<&str> = {
        let pool = ["tt", "ff", "ss", "tt1", "TT", "t", "typical", "1", "models", "endl"];
        let perm = t.permutation(pool.len());
        perm.iter().take(nsec + 2).map(|k| pool[*k]).collect()
    };
    let mut sections: Vec<Vec<String>> = vec![vec![]; nsec];
    let mut deck: Vec<String> = vec![t.pick(&["title", "* x", ".lib a b"]).to_string()];
    let files: Vec<&str> = {
        let pool = ["x.lib", "sub/y.lib", "./z.lib", "../up.lib", "tt", "sub/deep/w"];
        (0..nsec).map(|_| *t.pick(&pool)).collect()
    };
    let mut included = vec![false; nsec];
    let mut moved = 0;
    for c in chunks {
        if c.contains(&import) {
            deck.extend(c);
            continue;
        }
        // also a part of a definition can come from a library
        if c.len() > 2 && c[0].starts_with(".subckt") && t.chance(1, 4) {
            if let Some(s) = (0..nsec).find(|s| !included[*s] && sections[*s].is_empty()) {
                let a = t.usize(1, c.len() - 2);
                let b = t.usize(a, c.len() - 2);
                deck.extend(c[..a].iter().cloned());
                sections[s].extend(c[a..=b].iter().cloned());
                included[s] = true;
                deck.push(format!(".lib {} {}", files[s], names[s]));
                deck.extend(c[b + 1..].iter().cloned());
                moved += b + 1 - a;
                continue;
            }
        }
        let s = t.usize(0, nsec);
        if s < nsec && !included[s] {
            // goes into section s; the import comes at some later place
            moved += c.len();
            sections[s].extend(c);
        } else {
            deck.extend(c);
        }
        for s in 0..nsec {
            if !included[s] && !sections[s].is_empty() && t.chance(1, 3) {
                included[s] = true;
                deck.push(format!(".lib {} {}", files[s], names[s]));
            }
        }
    }
    for s in 0..nsec {
        if !included[s] {
            deck.push(format!(".lib {} {}", files[s], names[s]));
        }
    }

    // write the libraries; sections sharing a file are in the same file
    let work = ctx.dir.join("lib");
    let _ = fs::remove_dir_all(&work);
    // the deck's directory may have the same name as that of a library
    let home = *t.pick(&["here", "here", "sub", "deep", "sub/sub", "sub/deep", "x.lib", "w"]);
    fs::create_dir_all(work.join(home)).expect("scratch");
    let fault = if t.chance(1, 6) { 1 + t.usize(0, 2) } else { 0 };
    let victim = t.usize(0, nsec - 1);
    let mut show = String::new();
    let mut written: Vec<&str> = vec![];
    let mut noise = Noise::pick(t);
    noise.crlf = t.chance(1, 5);
    let mut nsections = 0;
    for s in 0..nsec {
        if written.contains(&files[s]) || (s > 0 && same_file(&files[..s], files[s])) {
            continue;
        }
        written.push(files[s]);
        let mut out: Vec<String> = vec![t.pick(&["library", "", ".lib tt", ".endl", "* library"]).to_string()];
        let mut here: Vec<usize> = (0..nsec).filter(|k| norm(files[*k]) == norm(files[s])).collect();
        if here.len() > 1 && t.chance(1, 2) {
            here.reverse();
        }
        for k in here {
            outside(t, &mut out, &names);
            if t.chance(1, 2) {
                decoy(t, &mut out, names[nsec], &p);
                nsections += 1;
            }
            let mut sec = vec![format!(".lib {}", names[k])];
            sec.extend(sections[k].iter().cloned());
            sec.push(".endl".to_string());
            if fault == 1 && k == victim {
                sec[0] = format!(".lib {}", names[nsec + 1]);
            }
            if fault == 2 && k == victim {
                // it never ends
                sec.pop();
                noise.lines(t, &sec, &mut out);
                nsections += 1;
                break;
            }
            noise.lines(t, &sec, &mut out);
            nsections += 1;
        }
        if !(fault == 2 && norm(files[s]) == norm(files[victim])) {
            outside(t, &mut out, &names);
            if t.chance(1, 2) {
                decoy(t, &mut out, names[nsec], &p);
                nsections += 1;
            }
        }
        if fault == 3 && norm(files[s]) == norm(files[victim]) {
            show += &format!("\n--- {} does not exist", files[s]);
            continue;
        }
        let text = noise.join(t, &out);
        show += &format!("\n--- {}\n{}", files[s], text);
        let path = work.join(home).join(files[s]);
        fs::create_dir_all(path.parent().unwrap()).expect("scratch");
        fs::write(&path, text).expect("library");
    }
    if !shared.is_empty() {
        let mut out = vec!["common".to_string()];
        outside(t, &mut out, &names);
        if t.chance(1, 2) {
            decoy(t, &mut out, names[nsec], &p);
        }
        out.push(".lib common".into());
        out.extend(shared_lines);
        out.push(".endl".into());
        outside(t, &mut out, &names);
        let text = noise.join(t, &out);
        show += &format!("\n--- sub/common.lib\n{}", text);
        let path = work.join(home).join("sub/common.lib");
        fs::create_dir_all(path.parent().unwrap()).expect("scratch");
        fs::write(&path, text).expect("library");
    }
    // other files with the names of these libraries: where the program is run, and
    // next to the deck and the libraries
    run_among_decoys(&ctx.dir);
    if t.chance(1, 2) {
        let base = |f: &str| f.rsplit('/').next().unwrap().to_string();
        let real: Vec<PathBuf> = files.iter().map(|f| work.join(home).join(norm(f)).components().collect()).collect();
        let real: Vec<PathBuf> = real.iter().map(|p| flat_path(p)).collect();
        for f in &files {
            for (dir, whole) in [("", false), ("sub", false), ("..", false), ("sub/deep", false), ("..", true)] {
                let p = flat_path(&work.join(home).join(dir).join(if whole { f.to_string() } else { base(f) }));
                if p.starts_with(&work) && !real.contains(&p) && !p.is_dir() && p.parent().map_or(false, |d| d.is_dir() || dir == "sub" && fs::create_dir_all(d).is_ok()) {
                    fs::write(&p, DECOY).expect("decoy");
                    show += &format!("\n--- {} (a decoy)\n{}", p.strip_prefix(&work).unwrap().display(), DECOY);
                }
            }
        }
        ctx.label("files with the same name elsewhere");
    }
    let text = deck.join("\n") + "\n";
    ctx.show = format!("{}{}", text, show);
    let path = work.join(home).join("deck.spi");
    fs::write(&path, &text).expect("deck");
    // the deck's directory isn't the current one
    let got = sim::read_path(&path);
    if fault > 0 {
        ctx.label(["", "missing section", "section that doesn't end", "missing file"][fault]);
        ensure!(got.is_err(), "the deck is read although {}", ["", "a section is missing", "a section doesn't end", "a file is missing"][fault]);
        ctx.nontrivial = true;
        return Ok(Verdict::Pass);
    }
    let d = got?;
    sim::match_up(&fl.flat, &fl.names, &d.ckt)?;
    // (the control block may have been in the library)
    match d.cfg.kind {
        Some(Kind::DcOperatingPoint) => ensure!(ctrl[1] == "op", "the analysis is an operating point"),
        Some(Kind::Transient) => ensure!(ctrl[1] != "op" && num::close(d.cfg.TSTOP, 100e-6, 1e-15), "the analysis is a transient to {:e}", d.cfg.TSTOP),
        _ => fail!("there is no analysis"),
    }
    let want = Path::new("waves").join(path.strip_prefix("/").unwrap_or(&path)).join(if ctrl[1] == "op" { "dc.dat" } else { "tran.dat" });
    ensure!(Path::new(&d.cfg.wavefile) == want, "the waveform file is '{}', expected '{}'", d.cfg.wavefile, want.display());
    ctx.label("imported");
    ctx.maximum("lines from libraries", moved as f64);
    ctx.nontrivial = nsections >= 2 && moved > 0;
    Ok(Verdict::Pass)
}

fn norm(f: &str) -> String {
    f.trim_start_matches("./").to_string()
}
fn same_file(fs: &[&str], f: &str) -> bool {
    fs.iter().any(|x| norm(x) == norm(f))
}

/// Without . and ..
fn flat_path(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::CurDir => {}
            std::path::Component::ParentDir => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    out
}

const DECOY: &str = "decoy\n.lib tt\nR77 1 0 77\n.endl\n.lib ff\nR77 1 0 77\n.endl\n.lib ss\nR77 1 0 77\n.endl\n.lib tt1\nR77 1 0 77\n.endl\n.lib TT\nR77 1 0 77\n.endl\n.lib t\nR77 1 0 77\n.endl\n.lib typical\nR77 1 0 77\n.endl\n.lib 1\nR77 1 0 77\n.endl\n.lib models\nR77 1 0 77\n.endl\n.lib endl\nR77 1 0 77\n.endl\n";

/// From here on this process runs in a directory with decoys of all the libraries
fn run_among_decoys(dir: &Path) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let cwd = dir.join("cwd/in");
        fs::create_dir_all(cwd.join("sub/deep")).expect("scratch");
        for f in ["x.lib", "sub/y.lib", "z.lib", "../up.lib", "tt", "sub/deep/w", "y.lib", "w", "up.lib"] {
            fs::write(cwd.join(f), DECOY).expect("decoy");
        }
        std::env::set_current_dir(&cwd).expect("scratch");
    });
}

/// Text between sections, which means nothing
fn outside(t: &mut Tape, out: &mut Vec<String>, names: &[&str]) {
    for _ in 0..t.usize(0, 2) {
        if t.chance(1, 4) {
            // that doesn't start a section either
            let n = *t.pick(names);
            let s = match t.below(6) {
                0 => format!(".lib {} fast", n),
                1 => format!(".lib {} {}", n, n),
                2 => format!(".lib x.lib {}", n),
                3 => format!("lib {}", n),
                4 => format!(".libs {}", n),
                _ => format!(".LIB {}", n),
            };
            out.push(s);
            continue;
        }
        out.push(t.pick(&["", "some words", "R99 1 0 99", ".control", ".ends", "* note", "Q1 a b c", ".endl", "lib tt", ".subckt zz a", "V99 1 0 5"]).to_string());
    }
}

/// A section nobody asked for
fn decoy(t: &mut Tape, out: &mut Vec<String>, name: &str, p: &Prog) {
    out.push(format!(".lib {}", name));
    if !p.defs.is_empty() && t.chance(1, 2) {
        out.push(format!(".subckt {} a b", p.defs[0].name));
        out.push("R1 a b 12345".into());
        out.push(".ends".into());
    }
    out.push(t.pick(&["R1 1 0 4711", "C1 n1 0 1", "nonsense", ".control"]).to_string());
    out.push(".endl".to_string());
}

pub const C16: Prop = Prop {
    id: "C16",
    rule: "a control block with an analysis and at least one option or ignored command",
    quick: 400000,
    thorough: 5000000,
    f: c16,
};

fn c16(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let want = t.weighted(&[4, 2, 1]); // tran, op, nothing
    let pos = |t: &mut Tape, lo, hi| num::number(t, lo, hi, false);
    let (step, stop) = (pos(t, -9, 0), pos(t, -6, 3));
    let start = if t.chance(1, 2) { Some(num::number0(t, -6, 2, false)) } else { None };
    let mut cmds: Vec<String> = vec![];
    match want {
        0 => {
            let mut s = format!("tran {} {}", num::unit(t, &step.text), num::unit(t, &stop.text));
            if let Some(x) = &start {
                s += &format!(" {}", x.text);
                if t.chance(1, 4) {
                    // a largest step, as in other simulators
                    s += t.pick(&[" 1u", " 0", " 1n uic", " -1", " UIC"]);
                }
            }
            cmds.push(s);
        }
        1 => cmds.push("op".into()),
        _ => {}
    }
    let mut abstol: Option<Val> = None;
    let mut reltol: Option<Val> = None;
    let mut rmax: Option<Val> = None;
    let eq = |t: &mut Tape| t.pick(&["=", " = ", " =", "= ", "  =  "]).to_string();
    let mut ignored = 0;
    for _ in 0..t.usize(0, 6) {
        let s = match t.weighted(&[2, 2, 2, 2, 2]) {
            0 => {
                let v = pos(t, -15, -2);
                let s = format!("option ABSTOL{}{}", eq(t), v.text);
                abstol = Some(v);
                s
            }
            1 => {
                let v = pos(t, -12, -1);
                let s = format!("option RELTOL{}{}", eq(t), v.text);
                reltol = Some(v);
                s
            }
            2 => {
                let v = pos(t, -2, 3);
                let s = format!("option RMAX{}{}", eq(t), v.text);
                rmax = Some(v);
                s
            }
            3 => {
                ignored += 1;
                let e = eq(t);
                format!("option {}{}{}", t.pick(&[
                    "FOO", "ABSTOLX", "XRELTOL", "RMAX1", "METHOD", "TRTOL", "CHGTOL", "TNOM", "ABS", "VNTOL", "GMIN", "TDEGC", "TEMP", "ITL1", "ITL2", "ITL3", "ITL4", "ITL5", "FS", "FT",
                    "RMIN", "TSTEP", "TSTOP", "TSTART", "TMAX", "PIVTOL", "PIVREL", "TOL", "ABS_TOL", "REL", "TRABS", "abstolx", "MAX", "_RMAX", "ABSTOLRELTOL", "SRCSTEPS", "GMINSTEPS",
                ]), e, t.pick(&["1", "gear", "1e-3", "27", "0.5", "3"]))
            }
            _ => {
                ignored += 1;
                t.pick(&["plot v(1)", "run", "print all", "quit", "set x = 3", "options RELTOL=0.5", "option", "operate", "transient 1 2", "opt RELTOL=0.5", "write a.raw", "dc V1 0 5 1", "TRAN 1 2", "OP"]).to_string()
            }
        };
        // options of the same name: the latest holds, so keep their order
        let at = if s.starts_with("option ") && !s.contains("FOO") { cmds.len() } else { t.usize(0, cmds.len()) };
        cmds.insert(at, s);
    }
    if want != 2 && t.chance(1, 2) {
        // the analysis anywhere among the options
        let at = cmds.iter().position(|c| c.starts_with("tran ") || c == "op").unwrap();
        let a = cmds.remove(at);
        let to = t.usize(0, cmds.len());
        cmds.insert(to, a);
    }
    // earlier analyses don't count
    let mut earlier = 0;
    if want != 2 && t.chance(1, 4) {
        for _ in 0..t.usize(1, 2) {
            let at = cmds.iter().rposition(|c| c.starts_with("tran ") || c == "op").unwrap();
            let at = t.usize(0, at);
            let s = match t.below(3) {
                0 => "op".to_string(),
                1 => format!("tran {} {}", pos(t, -9, 0).text, pos(t, -6, 3).text),
                _ => format!("tran {} {} {}", pos(t, -9, 0).text, pos(t, -6, 3).text, pos(t, -6, 2).text),
            };
            earlier += 1;
            cmds.insert(at, s);
        }
        ctx.label("several analyses");
    }
    let mut lines = vec!["control".to_string()];
    let split = if t.chance(1, 6) { t.usize(0, cmds.len()) } else { cmds.len() };
    let els = ["V1 1 0 5", "R1 1 2 1k", "C1 2 0 1u"];
    let before = t.usize(0, 3);
    lines.extend(els[..before].iter().map(|s| s.to_string()));
    lines.push(".control".into());
    lines.extend(cmds[..split].iter().cloned());
    lines.push(".endc".into());
    lines.extend(els[before..].iter().map(|s| s.to_string()));
    if split < cmds.len() {
        lines.push(".control".into());
        lines.extend(cmds[split..].iter().cloned());
        lines.push(".endc".into());
    }
    let text = lines.join("\n") + "\n";
    ctx.show = text.clone();

    let rel = t.pick(&["deck.spi", "a/b.spi", "./c.cir", "d.e/f", "a/b/c/deck"]).to_string();
    let path = sim::write_deck(ctx, &rel, &text);
    let cfg = guarded(|| {
        let mut r = Reader::new();
        if r.read(&path) {
            return Err("the reader reports errors".to_string());
        }
        let c = r.configuration();
        Ok(c.clone())
    })??;
    let got = |what: &str, a: f64, b: f64| -> Result<(), Stop> {
        if num::close(a, b, 1e-15) {
            Ok(())
        } else {
            Err(Stop::Fail(format!("{} is {:e}, expected {:e}", what, a, b)))
        }
    };
    let or = |v: &Option<Val>, d: f64| v.as_ref().map(|v| v.val).unwrap_or(d);
    got("ABSTOL", cfg.ABSTOL, or(&abstol, 1e-9))?;
    got("RELTOL", cfg.RELTOL, or(&reltol, 1e-4))?;
    got("RMAX", cfg.RMAX, or(&rmax, 5.0))?;
    got("VNTOL", cfg.VNTOL, 1e-6)?;
    got("GMIN", cfg.GMIN, 1e-12)?;
    got("TDEGC", cfg.TDEGC, 27.0)?;
    got("FS", cfg.FS, 0.25)?;
    got("FT", cfg.FT, 0.25)?;
    got("RMIN", cfg.RMIN, 1e-3)?;
    ensure!(cfg.ITL1 == 50 && cfg.ITL3 == 6 && cfg.ITL4 == 50, "iteration limits are {} {} {}", cfg.ITL1, cfg.ITL3, cfg.ITL4);
    let kind = match cfg.kind {
        None => "none",
        Some(Kind::DcOperatingPoint) => "op",
        Some(Kind::DcSweep) => "sweep",
        Some(Kind::Transient) => "tran",
    };
    ensure!(kind == ["tran", "op", "none"][want], "the analysis is '{}'", kind);
    if want == 0 {
        got("TSTEP", cfg.TSTEP, step.val)?;
        got("TSTOP", cfg.TSTOP, stop.val)?;
        got("TSTART", cfg.TSTART, or(&start, 0.0))?;
    } else if earlier == 0 {
        got("TSTEP", cfg.TSTEP, 1e-6)?;
        got("TSTOP", cfg.TSTOP, 1e-3)?;
        got("TSTART", cfg.TSTART, 0.0)?;
    }
    let wave = |p: &Path| Path::new("waves").join(p.strip_prefix("/").unwrap_or(p)).join(["tran.dat", "dc.dat", ""][want]);
    if want < 2 {
        ensure!(Path::new(&cfg.wavefile) == wave(&path), "the waveform file is '{}', expected '{}'", cfg.wavefile, wave(&path).display());
    }
    ctx.label(kind);
    ctx.nontrivial = want < 2 && (ignored > 0 || abstol.is_some() || reltol.is_some() || rmax.is_some());

    // and with the program
    if want == 0 && t.chance(1, 8) {
        let ratio = stop.val / step.val / or(&rmax, 5.0);
        if ratio < 2000.0 {
            let absolute = t.chance(1, 3);
            let arg = if absolute { path.clone() } else { Path::new(&rel).to_path_buf() };
            let _ = fs::remove_dir_all(ctx.dir.join("waves"));
            let r = cli::run(ctx, &arg)?;
            let file = ctx.dir.join(wave(&arg));
            ensure!(file.is_file(), "no waveform file at '{}' after running the program on '{}':\n{}", file.display(), arg.display(), r.tail());
            let w = sim::parse_wave(&file)?;
            ensure!(w.t.last() == Some(&cfg.TSTOP) || cfg.TSTART > cfg.TSTOP, "the waveforms end at {:?}, TSTOP is {:e}", w.t.last(), cfg.TSTOP);
            if w.t.len() > 1 {
                ensure!(w.t[1] >= cfg.TSTART, "the row after the first is at {:e}, TSTART is {:e}", w.t[1], cfg.TSTART);
            }
            ctx.label(if absolute { "program, absolute path" } else { "program, relative path" });
            let _ = fs::remove_dir_all(ctx.dir.join("waves"));
        }
    }
    Ok(Verdict::Pass)
}
