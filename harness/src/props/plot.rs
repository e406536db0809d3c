//! C27: the plotter, bin/r8n, with a stand-in for matplotlib that records the plots

use super::*;
use crate::run::{Res, Verdict};
use crate::sim::Wave;
use crate::{ensure, fail};
use std::fs;
use std::path::Path;
use std::process::Command;

pub const C27: Prop = Prop {
    id: "C27",
    rule: "at least two waveform files and two expressions are plotted, or the request is a faulty one",
    quick: 4000,
    thorough: 50000,
    f: c27,
};

const STUB: &str = r#"
import os, struct
_log = []
def _nums(v):
    try:
        return [float(x) for x in v]
    except TypeError:
        return [float(v)]
def _hex(v):
    return ",".join(struct.pack(">d", x).hex() for x in v)
class _Any(object):
    def __init__(self, name): self._name = name
    def plot(self, *a, **k): return plot(*a, **k)
    def __getattr__(self, n): return _Any(n)
    def __call__(self, *a, **k):
        return (_Any("f"), _Any("a")) if self._name == "subplots" else _Any("r")
    def __iter__(self): return iter(())
def plot(*a, **k):
    a = list(a)
    while a:
        x = _nums(a.pop(0)); y = _nums(a.pop(0))
        fmt = a.pop(0) if a and isinstance(a[0], str) else ""
        marker = "o" in fmt or k.get("marker") is not None
        _log.append("%s %s %s %s" % ("marker" if marker else "line", str(k.get("color", k.get("c", fmt))).replace(" ", "_") or "-", _hex(x), _hex(y)))
    return [_Any("line")]
def show(*a, **k):
    with open(os.environ["PLOT_LOG"], "a") as f:
        for l in _log: f.write(l + "\n")
        f.write("show\n")
    del _log[:]
def __getattr__(n):
    return _Any(n)
"#;

fn value(t: &mut Tape) -> f64 {
    let v = match t.weighted(&[3, 3, 2, 1]) {
        0 => t.int(-9, 9) as f64,
        1 => (t.unit() - 0.5) * 10f64.powi(t.int(-12, 9) as i32),
        2 => t.unit() + 1.0 / 3.0,
        _ => *t.pick(&[0.0, -0.0, 1e300, -5e-324, 0.1, 123456789.125]),
    };
    v
}

fn synthetic(t: &mut Tape) -> Wave {
    let n = t.usize(2, 7);
    let rows = t.usize(1, 5);
    let mut w = Wave { names: vec!["Time".into()], units: vec!["s".into()], t: vec![], x: vec![] };
    for j in 0..n {
        w.names.push(format!("v(n{})", j));
        w.units.push("V".into());
    }
    let mut now = 0.0;
    for _ in 0..rows {
        w.t.push(now);
        now += 1e-6 * (0.1 + t.unit());
        w.x.push((0..n).map(|_| value(t)).collect());
    }
    w
}

fn text(w: &Wave) -> String {
    let mut s = w.names.join("\t") + "\n" + &w.units.join("\t") + "\n";
    for (t, x) in w.t.iter().zip(&w.x) {
        s += &format!("{:?}", t);
        for v in x {
            s += &format!("\t{:?}", v);
        }
        s += "\n";
    }
    s
}

fn c27(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let work = ctx.dir.join("plot");
    let _ = fs::remove_dir_all(&work);
    let stub = work.join("stub");
    fs::create_dir_all(stub.join("matplotlib")).expect("scratch");
    fs::write(stub.join("matplotlib/__init__.py"), "").expect("scratch");
    fs::write(stub.join("matplotlib/pyplot.py"), STUB).expect("scratch");

    let dir_name = t.pick(&["waves", "a/b", "with space", "x.dat.d", "-w", "1"]).to_string();
    let dir = work.join(&dir_name);
    fs::create_dir_all(&dir).expect("scratch");
    let mut waves: Vec<(String, Wave)> = vec![];
    let mut show = format!("directory '{}'\n", dir_name);
    let by_program = t.chance(1, 8);
    if by_program {
        // where the program puts them
        let _ = fs::remove_dir_all(ctx.dir.join("waves"));
        let (a, b) = (1 + t.usize(0, 8), 1 + t.usize(0, 8));
        let deck = format!("title\nV1 1 0 SIN(0 {} 1k)\nR1 1 2 {}k\nR2 2 0 1k\nC1 2 3 1n\nR3 3 0 1k\n.control\ntran 1u 5u\n.endc\n", a, b);
        let path = sim::write_deck(ctx, "plotted.spi", &deck);
        let r = cli::run(ctx, Path::new("plotted.spi"))?;
        let from = ctx.dir.join("waves/plotted.spi/tran.dat");
        ensure!(from.is_file(), "no waveform file:\n{}", r.tail());
        let w = sim::parse_wave(&from)?;
        fs::rename(&from, dir.join("tran.dat")).expect("move");
        let _ = fs::remove_file(path);
        show += &format!("--- tran.dat by the program, of\n{}", deck);
        waves.push(("tran.dat".into(), w));
        ctx.label("by the program");
    } else {
        let pool = ["tran.dat", "dc.dat", "a.dat", "b.dat", "A.dat", "10.dat", "9.dat", "two words.dat", "x.y.dat"];
        let perm = t.permutation(pool.len());
        for k in perm.iter().take(t.usize(1, 4)) {
            let w = synthetic(t);
            show += &format!("--- {}\n{}", pool[*k], text(&w));
            fs::write(dir.join(pool[*k]), text(&w)).expect("data");
            waves.push((pool[*k].to_string(), w));
        }
    }
    if t.chance(1, 2) {
        for other in ["tran.dat~", "b.DAT", "notes.txt", "dat", "c.dat.old"] {
            if t.chance(1, 2) {
                let w = synthetic(t);
                fs::write(dir.join(other), if t.chance(1, 2) { text(&w) } else { "not a waveform".into() }).expect("data");
                show += &format!("--- (also {})\n", other);
            }
        }
        ctx.label("other files about");
    }
    waves.sort_by(|a, b| a.0.cmp(&b.0));
    let least = waves.iter().map(|w| w.1.names.len()).min().unwrap() - 1;

    // what is plotted
    let mut exprs: Vec<(String, usize, Option<usize>)> = vec![];
    let given = t.chance(4, 5);
    if given {
        for _ in 0..1 + t.weighted(&[2, 3, 2, 1, 1, 1]) {
            let a = t.usize(0, least);
            let b = t.usize(0, least);
            exprs.push(match t.weighted(&[3, 3, 1]) {
                0 => (format!("{}", a), a, None),
                1 => (format!("{}-{}", a, b), a, Some(b)),
                _ => (format!(" {} - {} ", a, b), a, Some(b)),
            });
        }
    } else {
        exprs.push(("2".into(), 2, None));
    }
    let mut arg = exprs.iter().map(|e| e.0.clone()).collect::<Vec<_>>();
    let mut path = if t.chance(1, 2) { dir.to_str().unwrap().to_string() } else { dir_name.clone() };
    if t.chance(1, 4) {
        path += "/";
    }
    // faults
    let fault = if t.chance(1, 4) { t.usize(1, 8) } else { 0 };
    let mut args: Vec<String> = vec![];
    match fault {
        1 => path = "nosuch".into(),
        2 => path = dir.join(&waves[0].0).to_str().unwrap().into(),
        3 => {
            for w in &waves {
                fs::remove_file(dir.join(&w.0)).expect("scratch");
            }
        }
        4 => {
            let k = t.usize(0, arg.len() - 1);
            arg[k] = t.pick(&["x", "", "1-2-3", "-1", "1+2", "2.0", "1-", "v(n0)", "1 2", "--", "1-x", "0-0-0"]).to_string();
        }
        5 => {
            let most = waves.iter().map(|w| w.1.names.len()).max().unwrap();
            let k = t.usize(0, arg.len() - 1);
            arg[k] = if t.chance(1, 2) { format!("{}", most) } else { format!("1-{}", most + 3) };
        }
        8 => {
            // a file that isn't all numbers
            let k = t.usize(0, waves.len() - 1);
            let f = dir.join(&waves[k].0);
            let mut s = text(&waves[k].1);
            s += t.pick(&["1.0\n", "x\ty\n", "0.5\tfoo\tbar\tfoo\tbar\tfoo\tbar\tfoo\tbar\n"]);
            fs::write(f, s).expect("data");
            let max_col = arg.iter().zip(&exprs).map(|(_, e)| e.1.max(e.2.unwrap_or(0))).max().unwrap();
            if max_col == 0 {
                arg[0] = "1".into();
            }
        }
        _ => {}
    }
    let expr_arg = arg.join(",");
    if given || fault == 4 || fault == 5 || fault == 8 {
        if t.chance(1, 2) {
            args.extend(["-expr".to_string(), expr_arg, path]);
        } else {
            args.extend([path, "-expr".to_string(), expr_arg]);
        }
    } else {
        args.push(path);
    }
    match fault {
        6 => args = vec![],
        7 => {
            args.retain(|a| a != "-expr");
            args.truncate(1);
            args = if t.chance(1, 2) { vec!["-expr".into()] } else { vec![dir_name.clone(), "-expr".into()] };
        }
        _ => {}
    }
    show += &format!("r8n {:?}", args);
    ctx.show = show;

    let log = work.join("log");
    let out = Command::new("python3")
        .args(["-B", "/repo/bin/r8n"])
        .args(&args)
        .current_dir(&work)
        .env("PYTHONPATH", &stub)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PLOT_LOG", &log)
        .output()
        .expect("python3");
    let plots = fs::read_to_string(&log).unwrap_or_default();
    let said = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    if fault > 0 {
        ctx.label(["", "no such directory", "not a directory", "no waveforms", "faulty expression", "no such column", "no arguments", "no expression", "faulty data"][fault]);
        ensure!(!out.status.success(), "r8n ends well although the request is faulty (fault {}):\n{}", fault, said);
        ensure!(plots.is_empty(), "r8n shows a plot although the request is faulty (fault {})", fault);
        ensure!(!said.trim().is_empty(), "r8n says nothing about the fault");
        ctx.nontrivial = true;
        return Ok(Verdict::Pass);
    }
    ensure!(out.status.success(), "r8n fails:\n{}", said);

    // line by line
    let hex = |v: &[f64]| v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",");
    let lines: Vec<Vec<&str>> = plots.lines().map(|l| l.split(' ').collect()).collect();
    ensure!(lines.last() == Some(&vec!["show"]) && lines.iter().filter(|l| l[0] == "show").count() == 1, "the plot isn't shown once: {}", plots);
    let got: Vec<&Vec<&str>> = lines.iter().filter(|l| l[0] == "line").collect();
    let mut marks: Vec<String> = lines.iter().filter(|l| l[0] == "marker").map(|l| format!("{} {} {}", l[1], l[2], l[3])).collect();
    let mut want: Vec<(usize, String)> = vec![];
    let mut ends: Vec<String> = vec![];
    for (_, w) in &waves {
        for (j, (_, a, b)) in exprs.iter().enumerate() {
            let col = |k: usize| -> Vec<f64> { if k == 0 { w.t.clone() } else { w.x.iter().map(|r| r[k - 1]).collect() } };
            let mut y = col(*a);
            if let Some(b) = b {
                for (v, s) in y.iter_mut().zip(col(*b)) {
                    *v -= s;
                }
            }
            want.push((j, format!("{} {}", hex(&w.t), hex(&y))));
            ends.push(format!("{} {}", hex(&w.t[w.t.len() - 1..]), hex(&y[y.len() - 1..])));
        }
    }
    ensure!(got.len() == want.len(), "{} lines are plotted for {} files and {} expressions", got.len(), waves.len(), exprs.len());
    // in any order; lines of an expression have its colour
    let mut colour: Vec<Option<&str>> = vec![None; exprs.len()];
    let mut left: Vec<(&str, String)> = got.iter().map(|l| (l[1], format!("{} {}", l[2], l[3]))).collect();
    let several: std::collections::HashSet<&String> = want.iter().map(|w| &w.1).collect();
    let unique = several.len() == want.len();
    for (n, (j, s)) in want.iter().enumerate() {
        let at = match left.iter().position(|l| l.1 == *s) {
            Some(at) => at,
            None => fail!("no line for file '{}' and expression '{}': {} are plotted", waves[n / exprs.len()].0, exprs[*j].0, got.len()),
        };
        let (c, _) = left.remove(at);
        let mark = format!("{} {}", c, ends[n]);
        match marks.iter().position(|m| *m == mark) {
            Some(m) => {
                marks.remove(m);
            }
            None => {
                if unique {
                    fail!("no mark at the end of the line for file '{}' and expression '{}'", waves[n / exprs.len()].0, exprs[*j].0)
                }
            }
        }
        if unique {
            match colour[*j] {
                None => colour[*j] = Some(c),
                Some(o) => ensure!(o == c, "the lines of expression '{}' have the colours {} and {}", exprs[*j].0, o, c),
            }
        }
    }
    if unique {
        ensure!(marks.is_empty(), "{} marks where no line ends", marks.len());
        for j in 1..exprs.len() {
            ensure!(colour[j] != colour[j - 1], "expressions {} and {} have the same colour", j - 1, j);
        }
    }
    ctx.nontrivial = waves.len() >= 2 && exprs.len() >= 2;
    Ok(Verdict::Pass)
}
