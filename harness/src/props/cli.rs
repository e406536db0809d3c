//! C17, C19: the program as a whole

use super::*;
use crate::deck::{prog, scale, Item, Prog, ProgOpts};
use crate::num;
use crate::run::{Res, Verdict};
use crate::{ensure, fail};
use std::fs;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran {
    pub out: String,
    pub code: Option<i32>,
    pub signal: Option<i32>,
}

impl Ran {
    pub fn tail(&self) -> String {
        let n = self.out.len();
        let mut k = n.saturating_sub(800);
        while !self.out.is_char_boundary(k) {
            k += 1;
        }
        self.out[k..].to_string()
    }
    /// The program complains about something
    pub fn complains(&self) -> bool {
        let o = self.out.to_lowercase();
        o.contains("error") || o.contains("fatal") || o.contains("panicked")
    }
}

extern "C" {
    fn setrlimit(what: i32, limits: &[u64; 2]) -> i32;
    fn signal(num: i32, what: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;
const RLIMIT_CPU: i32 = 0;
const SIGXCPU: i32 = 24;
/// the decks take milliseconds
const CPU_SECONDS: u64 = 60;

/// Run the program on a deck, in the scratch directory
pub fn run(ctx: &Ctx, deck: &Path) -> Result<Ran, String> {
    if ctx.cli.as_os_str().is_empty() {
        return Err("harness: VERIF_CLI is not set".into());
    }
    let log = ctx.dir.join("cli.out");
    let f = fs::File::create(&log).expect("log");
    let g = f.try_clone().expect("log");
    let mut cmd = Command::new(&ctx.cli);
    // SAFETY: setrlimit only
    unsafe {
        cmd.pre_exec(|| {
            setrlimit(RLIMIT_CPU, &[CPU_SECONDS, CPU_SECONDS + 1]);
            Ok(())
        });
    }
    let mut kid = cmd
        .arg(deck)
        .current_dir(&ctx.dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::from(f))
        .stderr(Stdio::from(g))
        .spawn()
        .expect("spawn the program");
    let began = Instant::now();
    let mut nap = 200;
    let st = loop {
        if let Some(s) = kid.try_wait().expect("wait") {
            break s;
        }
        if began.elapsed() > Duration::from_secs(400) {
            // says nothing about the program: no answer
            let _ = kid.kill();
            let _ = kid.wait();
            std::process::exit(3);
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(20_000);
    };
    if st.signal() == Some(SIGXCPU) {
        return Err(format!("the program has not finished after {} s of processor time", CPU_SECONDS));
    }
    let mut buf = vec![];
    fs::File::open(&log).expect("log").take(1 << 20).read_to_end(&mut buf).expect("log");
    Ok(Ran { out: String::from_utf8_lossy(&buf).into_owned(), code: st.code(), signal: st.signal() })
}

/// All the files under waves/
pub fn wave_files(dir: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    let mut todo = vec![dir.join("waves")];
    while let Some(d) = todo.pop() {
        if let Ok(rd) = fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p);
                } else {
                    v.push(p);
                }
            }
        }
    }
    v.sort();
    v
}

pub fn clear(ctx: &Ctx) {
    let _ = fs::remove_dir_all(ctx.dir.join("waves"));
}

// ------------------------------------------------------------------- C17

pub const C17: Prop = Prop {
    id: "C17",
    rule: "a deck that the program simulates, refused once a fault is planted in it",
    quick: 30000,
    thorough: 400000,
    f: c17,
};

struct Blocks {
    top: Vec<String>,
    defs: Vec<Vec<String>>,
    control: Vec<String>,
    /// definitions go into a library
    lib: bool,
    /// this definition goes last
    last: Option<usize>,
    endc: bool,
    lib_line: String,
    endl: bool,
    /// run on something else than the deck
    arg: Option<String>,
}

/// Stands for a byte that isn't part of any text
const NOT_TEXT: char = '\u{fffc}';

impl Blocks {
    /// Deck and library text
    fn text(&self) -> (String, Option<String>) {
        let mut s = String::from("a deck\n");
        let mut lib = None;
        if self.lib {
            let mut l = String::from("library\n.lib sect\n");
            for d in &self.defs {
                l += &d.join("\n");
                l.push('\n');
            }
            if self.endl {
                l += ".endl\n";
            }
            lib = Some(l);
            s += &self.lib_line;
            s.push('\n');
        } else {
            for (k, d) in self.defs.iter().enumerate() {
                if Some(k) != self.last {
                    s += &d.join("\n");
                    s.push('\n');
                }
            }
        }
        s += &self.top.join("\n");
        s.push('\n');
        let mut c = String::from(".control\n");
        c += &self.control.join("\n");
        c.push('\n');
        if self.endc {
            c += ".endc\n";
        }
        if !self.endc {
            s += &c;
        }
        if let (Some(k), false) = (self.last, self.lib) {
            s += &self.defs[k].join("\n");
            s.push('\n');
        }
        if self.endc {
            s += &c;
        }
        (s, lib)
    }
}

/// Definitions that are really instantiated
fn reachable(p: &Prog) -> Vec<usize> {
    let mut seen = vec![false; p.defs.len()];
    let mut todo: Vec<usize> = children(&p.top);
    while let Some(d) = todo.pop() {
        if !seen[d] {
            seen[d] = true;
            todo.extend(children(&p.defs[d].items));
        }
    }
    (0..seen.len()).filter(|d| seen[*d]).collect()
}

fn children(items: &[Item]) -> Vec<usize> {
    items.iter().filter_map(|i| if let Item::Inst { def, .. } = i { Some(*def) } else { None }).collect()
}

/// Put a line somewhere in the top or in a definition that is used
fn put(t: &mut Tape, b: &mut Blocks, live: &[usize], line: &str) {
    let w = if !live.is_empty() && t.chance(1, 2) { Some(*t.pick(live)) } else { None };
    match w {
        None => {
            let k = t.usize(0, b.top.len());
            b.top.insert(k, line.to_string());
        }
        Some(d) => put_in(t, b, d, line),
    }
}

fn put_in(t: &mut Tape, b: &mut Blocks, d: usize, line: &str) {
    let k = t.usize(1, b.defs[d].len() - 1);
    b.defs[d].insert(k, line.to_string());
}

/// Change one instance line
fn edit_inst<F: FnOnce(&mut Vec<String>, usize)>(t: &mut Tape, p: &Prog, b: &mut Blocks, live: &[usize], with_params: bool, f: F) -> Option<String> {
    // (where, line, definition)
    let mut at: Vec<(Option<usize>, usize, usize)> = vec![];
    let good = |def: usize| !with_params || !p.defs[def].params.is_empty();
    for (k, i) in p.top.iter().enumerate() {
        if let Item::Inst { def, .. } = i {
            if good(*def) {
                at.push((None, k, *def));
            }
        }
    }
    for d in live {
        for (k, i) in p.defs[*d].items.iter().enumerate() {
            if let Item::Inst { def, .. } = i {
                if good(*def) {
                    at.push((Some(*d), k + 1, *def));
                }
            }
        }
    }
    if at.is_empty() {
        return None;
    }
    let (w, k, def) = *t.pick(&at);
    let line = match w {
        None => &mut b.top[k],
        Some(d) => &mut b.defs[d][k],
    };
    let mut words: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
    f(&mut words, def);
    *line = words.join(" ");
    Some(line.clone())
}

const KINDS: [&str; 33] = [
    "unknown element", "unknown dot-command", "missing fields", "unreadable value", "bad node name", "bad option", "bad tran", "malformed SIN",
    "malformed PWL", "unsupported source", "undefined subcircuit", "instance without subcircuit", "self-instantiation", "mutual instantiation",
    "too few connections", "too many connections", "unresolved value", "unresolved override", "unresolved default", "parameter of another scope",
    "stray block end", "nested definition", "definition without a name", "definition never closed", "control never closed", "bad parameter text",
    "bad port", "bad connection", "repeated instance name", "not text", "bad library line", "no file",
    "name with a dot",
];

const BADVAL: [&str; 18] = ["abc", "{", "{r", "}", "-", "+", "1e", "1e-", "e3", ".", "k", "=", "(", "nan", "inf", "--1", "one", "$5"];

/// Plant one fault; None if this kind doesn't apply here
fn plant(t: &mut Tape, kind: &str, p: &Prog, b: &mut Blocks, live: &[usize]) -> Option<String> {
    let step_stop: Vec<String> = b.control.iter().find(|l| l.starts_with("tran")).map(|l| l.split_whitespace().skip(1).map(|s| s.to_string()).collect()).unwrap_or_default();
    let (a, o) = if t.chance(1, 2) { ("fa", "0") } else { ("gnd", "fb_1") };
    let mut line;
    match kind {
        "unknown element" => {
            line = t
                .pick(&[
                    "Q1 fa fb 0 mod", "L1 fa 0 1u", "M1 fa fb 0 0 nmos", "r1 fa 0 1k", "K1 L1 L2 0.9", "1 2 3", "+ 10k", "v1 fa 0 1", "x1 fa foo", "J1 fa fb 0 j",
                    "B1 fa 0 V=1", "S1 fa 0 fb 0 sw", "F1 fa 0 V1 2", "H1 fa 0 V1 2", "abc", "@", "{x}", "=", "_R1 fa 0 1k", "d1 fa 0", "T1 fa 0 fb 0 Z0=50", "\u{3a9}1 fa 0 1k",
                    "//comment", "# comment", "N1 fa 0 1", "1R fa 0 1k", "-R1 fa 0 1k",
                ])
                .to_string();
            put(t, b, live, &line);
        }
        "unknown dot-command" => {
            line = t
                .pick(&[
                    ".include foo.inc", ".model d1 D", ".param x=1", ".tran 1n 1u", ".op", ".global vdd", ".SUBCKT foo a b", ".ENDS", ".foo", ".", ".control1", ".endc",
                    ".endl", ".lib", ".lib x", ".lib nosuchfile sect", ".option RELTOL=1e-3", ".ic v(a)=1", ".save all", ".measure x", "..", ".subckts a b", ".libs a b c", ".temp 27",
                ])
                .to_string();
            put(t, b, live, &line);
        }
        "missing fields" => {
            let full = t
                .pick(&["Rf fa 0 1k", "Cf fa 0 1n", "Df fa 0", "Ef fa 0 fb 0 2", "Gf fa 0 fb 0 1m", "Vf fa 0 1", "If fa 0 1m", "Vf fa 0 SIN(0,1,1k)", "If fa 0 SIN(0,1,1k)", "Vf fa 0 PWL(0,0,1,1)"])
                .to_string();
            let w: Vec<&str> = full.split(' ').collect();
            let n = t.usize(1, w.len() - 1);
            line = w[..n].join(" ");
            put(t, b, live, &line);
        }
        "unreadable value" => {
            let v = *t.pick(&BADVAL);
            line = match t.usize(0, 5) {
                0 => format!("Rf {} {} {}", a, o, v),
                1 => format!("Cf {} {} {}", a, o, v),
                2 => format!("Ef fe 0 {} {} {}", a, o, v),
                3 => format!("Gf {} {} {} {} {}", a, o, o, a, v),
                4 => format!("Vf {} {} {}", a, o, v),
                _ => format!("If {} {} {}", a, o, v),
            };
            put(t, b, live, &line);
        }
        "bad node name" => {
            let n = *t.pick(&["a-b", "a+", "a.b", "a$", "n(1)", "a/b", "\u{e9}", "a#", "(a", "a)", "a,b", "a:1", "{a}", "-1", "a!", "\"a\"", "[0]"]);
            line = match t.usize(0, 9) {
                0 => format!("Rf {} 0 1k", n),
                1 => format!("Rf 0 {} 1k", n),
                2 => format!("Cf {} {} 1n", o, n),
                3 => format!("Df {} {}", n, o),
                4 => format!("Vf {} {} 1", n, o),
                5 => format!("If {} {} 1m", o, n),
                6 => format!("Ef fe 0 {} {} 2", n, o),
                7 => format!("Gf fe 0 {} {} 2", o, n),
                8 => format!("Vf {} {} SIN(0 1 1k)", n, o),
                _ => format!("Vf {} {} PWL(0,0,1,1)", n, o),
            };
            put(t, b, live, &line);
        }
        "bad option" => {
            let n = *t.pick(&["RELTOL", "ABSTOL", "RMAX"]);
            line = match t.usize(0, 7) {
                0 => format!("option {}={}", n, t.pick(&BADVAL)),
                1 => format!("option {} = {}", n, t.pick(&BADVAL)),
                2 => format!("option {}", n),
                3 => format!("option {} 1e-3", n),
                4 => format!("option {} =", n),
                5 => format!("option {}=={}", n, "1e-3"),
                6 => "option RMAX=0".to_string(),
                _ => format!("option RMAX = -{}", t.pick(&["1", "0.5", "1u", "1e3"])),
            };
            let k = t.usize(0, b.control.len());
            b.control.insert(k, line.clone());
        }
        "bad tran" => {
            if step_stop.len() < 2 {
                return None;
            }
            let (st, sp) = (&step_stop[0], &step_stop[1]);
            let bad = *t.pick(&BADVAL);
            line = match t.usize(0, 11) {
                0 => "tran".to_string(),
                1 => format!("tran {}", st),
                2 => format!("tran {} {}", bad, sp),
                3 => format!("tran {} {}", st, bad),
                4 => format!("tran {} {} {}", st, sp, bad),
                5 => format!("tran 0 {}", sp),
                6 => format!("tran {} 0", st),
                7 => format!("tran -{} {}", st.trim_start_matches('+'), sp),
                8 => format!("tran {} -{}", st, sp.trim_start_matches('+')),
                9 => format!("tran {},{}", st, sp),
                10 => format!("tran 0.0 {}", sp),
                _ => format!("tran {} -0", st),
            };
            for l in b.control.iter_mut() {
                if l.starts_with("tran") {
                    *l = line.clone();
                }
            }
        }
        "malformed SIN" => {
            let l = if t.chance(1, 2) { 'V' } else { 'I' };
            let s = *t.pick(&["SIN(1 2)", "SIN(1 2 3 4)", "SIN(a 2 3)", "SIN(1 b 3)", "SIN(1 2 c)", "SIN()", "SIN", "SIN(1,2)", "SIN(1)", "SIN (1, 2, )", "SIN(,1,2)", "SIN(1 2 -)", "SIN(1 2 3) 4", "SIN(1 2 3) AC 1"]);
            line = format!("{}f {} {} {}", l, a, o, s);
            put(t, b, live, &line);
        }
        "malformed PWL" => {
            let s = *t.pick(&[
                "PWL(0,1,2)", "PWL()", "PWL", "PWL(0,a)", "PWL(a,0)", "PWL(0,0,1u,1) td=abc", "PWL(0,0,1u,1) td={x}", "PWL(0,0,1u,1) r={x}", "PWL(0,0,1u,1) td=",
                "PWL(0,0,1u,1) r=x", "PWL(0)", "PWL(0,0,1u,1,)", "PWL(0,0,,1)", "PWL(0,0,1u,-)", "PWL(0,0,1u,1) td=1=2", "PWL(0,0,1u,1) td=1u r=", "PWL(0,0,1u,1) r=0 td=e",
            ]);
            line = format!("Vf {} {} {}", a, o, s);
            put(t, b, live, &line);
        }
        "unsupported source" => {
            line = format!(
                "{} {} {} {}",
                t.pick(&["Vf", "If"]),
                a,
                o,
                t.pick(&["EXP(0 1)", "PULSE(0 1 1n)", "1 2", "DC 5", "5 AC 1", "AC 1", "sin(0 1 1k)", "pwl(0,0,1,1)", "EXP(0 1 2 3)", "1k 5 r=0"])
            );
            if line.starts_with('I') && t.chance(1, 3) {
                line = format!("If {} {} PWL(0,0,1u,1)", a, o);
            }
            put(t, b, live, &line);
        }
        "undefined subcircuit" => {
            let taken: Vec<&str> = p.defs.iter().map(|d| d.name.as_str()).collect();
            let mut name = t.pick(&["nosuch", "/dev", "sub_", "Foo"]).to_string();
            let mut nports = t.usize(0, 3);
            if !p.defs.is_empty() && t.chance(2, 3) {
                // nearly the name of one that there is
                let d = t.pick(&p.defs);
                nports = d.ports.len();
                name = match t.usize(0, 3) {
                    0 => format!("{}x", d.name),
                    1 => d.name.to_uppercase(),
                    2 => d.name[..d.name.len() - 1].to_string(),
                    _ => format!("X{}", d.name),
                };
            }
            if name.is_empty() || taken.contains(&name.as_str()) {
                return None;
            }
            line = format!("Xf{} {}", " 0".repeat(nports), name);
            if t.chance(1, 4) {
                line += " r=1k";
            }
            put(t, b, live, &line);
        }
        "instance without subcircuit" => {
            line = t.pick(&["Xf", "Xf fnode", "Xf r=1k", "Xf fnode r=1k", "X"]).to_string();
            put(t, b, live, &line);
        }
        "self-instantiation" => {
            if live.is_empty() {
                return None;
            }
            let d = *t.pick(live);
            let def = &p.defs[d];
            let conns: String = def.ports.iter().map(|n| format!(" {}", if t.chance(1, 3) { "0" } else { n })).collect();
            line = format!("Xself{} {}", conns, def.name);
            put_in(t, b, d, &line);
        }
        "mutual instantiation" => {
            let pairs: Vec<(usize, usize)> = live.iter().flat_map(|d| children(&p.defs[*d].items).into_iter().map(move |c| (*d, c))).collect();
            if pairs.is_empty() {
                return None;
            }
            let (d, c) = *t.pick(&pairs);
            let conns = " 0".repeat(p.defs[d].ports.len());
            line = format!("Xback{} {}", conns, p.defs[d].name);
            put_in(t, b, c, &line);
        }
        "too few connections" => {
            let mut ok = false;
            let drop = t.below(8) as usize;
            line = edit_inst(t, p, b, live, false, |w, def| {
                let n = p.defs[def].ports.len();
                if n > 0 {
                    w.remove(1 + drop % n);
                    ok = true;
                }
            })?;
            if !ok {
                return None;
            }
        }
        "too many connections" => {
            let extra = t.pick(&["0", "fx", "gnd"]).to_string();
            line = edit_inst(t, p, b, live, false, |w, _| w.insert(1, extra))?;
        }
        "unresolved value" => {
            line = match t.usize(0, 3) {
                0 => format!("Rf {} {} {{zz}}", a, o),
                1 => format!("Cf {} {} {{zz}}", a, o),
                2 => format!("Gf {} {} {} {} {{zz}}", a, o, o, a),
                _ => format!("Ef fe 0 {} {} {{}}", a, o),
            };
            put(t, b, live, &line);
        }
        "unresolved override" => {
            line = edit_inst(t, p, b, live, true, |w, def| {
                let name = &p.defs[def].params[0].0;
                w.retain(|x| !x.starts_with(&format!("{}=", name)));
                w.push(format!("{}={{zz}}", name));
            })?;
        }
        "unresolved default" => {
            if live.is_empty() {
                return None;
            }
            let d = *t.pick(live);
            b.defs[d][0] += " zdef={zz}";
            line = b.defs[d][0].clone();
        }
        "parameter of another scope" => {
            // a parameter there is, but not in this scope
            let own: Vec<&str> = p.defs.iter().flat_map(|d| d.params.iter().map(|q| q.0.as_str())).collect();
            if own.is_empty() {
                return None;
            }
            let name = t.pick(&own).to_string();
            let mut places: Vec<Option<usize>> = vec![None];
            places.extend(live.iter().filter(|d| !p.defs[**d].params.iter().any(|q| q.0 == name)).map(|d| Some(*d)));
            line = format!("Rf {} {} {{{}}}", a, o, name);
            match *t.pick(&places) {
                None => {
                    let k = t.usize(0, b.top.len());
                    b.top.insert(k, line.clone());
                }
                Some(d) => put_in(t, b, d, &line),
            }
        }
        "stray block end" => {
            line = t.pick(&[".ends", ".endl", ".endc", ".ends foo"]).to_string();
            let k = t.usize(0, b.top.len());
            b.top.insert(k, line.clone());
        }
        "nested definition" => {
            if live.is_empty() {
                return None;
            }
            let d = *t.pick(live);
            let k = t.usize(1, b.defs[d].len() - 1);
            line = ".subckt inner a b".to_string();
            let at = b.defs[d].len().min(k);
            b.defs[d].insert(at, line.clone());
            if t.chance(2, 3) {
                b.defs[d].insert(at + 1, "Rin a b 1k".to_string());
                b.defs[d].insert(at + 2, ".ends".to_string());
            }
        }
        "definition without a name" => {
            let k = t.usize(0, b.top.len());
            line = ".subckt".to_string();
            b.top.insert(k, ".ends".to_string());
            if t.chance(1, 2) {
                b.top.insert(k, "Rin 1 0 1k".to_string());
            }
            b.top.insert(k, line.clone());
        }
        "definition never closed" => {
            if b.defs.is_empty() {
                return None;
            }
            let d = t.usize(0, b.defs.len() - 1);
            b.defs[d].pop();
            if t.chance(1, 2) {
                b.last = Some(d);
            }
            line = format!("(no .ends for {})", p.defs[d].name);
        }
        "bad port" => {
            // ground, a repeated name, or no name at all in place of a port
            let with: Vec<usize> = live.iter().copied().filter(|d| !p.defs[*d].ports.is_empty()).collect();
            if with.is_empty() {
                return None;
            }
            let d = *t.pick(&with);
            let k = t.usize(0, p.defs[d].ports.len() - 1);
            let mut new = t.pick(&["0", "gnd", "GND", "a.b", "x.gnd", "p-", "(", "a,b"]).to_string();
            if p.defs[d].ports.len() > 1 && t.chance(1, 3) {
                let j = t.usize(0, p.defs[d].ports.len() - 2);
                new = p.defs[d].ports[if j >= k { j + 1 } else { j }].clone();
            }
            let mut w: Vec<String> = b.defs[d][0].split_whitespace().map(|s| s.to_string()).collect();
            w[2 + k] = new;
            line = w.join(" ");
            b.defs[d][0] = line.clone();
        }
        "name with a dot" => {
            // that is what the names of things inside instances look like
            let inner = t.pick(&["X1", "X2", "Xa", "R1", "1", ""]).to_string();
            if t.chance(1, 3) {
                let par = format!("{}.{}={}", inner, t.pick(&["r", "c", "val", "x"]), t.int(1, 99));
                if !live.is_empty() && t.chance(1, 2) {
                    let d = *t.pick(live);
                    b.defs[d][0] += &format!(" {}", par);
                    line = b.defs[d][0].clone();
                } else {
                    line = edit_inst(t, p, b, live, false, |w, _| w.push(par))?;
                }
            } else {
                let front = t.chance(1, 2);
                line = edit_inst(t, p, b, live, false, |w, _| w[0] = if front { format!("X1.{}", w[0]) } else { format!("{}.{}", w[0], inner) })?;
            }
        }
        "repeated instance name" => {
            // a second instance of the same name, connected alike or not
            let mut blocks: Vec<Option<usize>> = vec![None];
            blocks.extend(live.iter().map(|d| Some(*d)));
            let mut at: Vec<(Option<usize>, String)> = vec![];
            for w in blocks {
                let lines = match w {
                    None => &b.top,
                    Some(d) => &b.defs[d],
                };
                at.extend(lines.iter().filter(|l| l.trim_start().starts_with('X')).map(|l| (w, l.clone())));
            }
            if at.is_empty() {
                return None;
            }
            let (w, l) = t.pick(&at).clone();
            let mut words: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect();
            if t.chance(1, 3) {
                // without its overrides
                words.retain(|w| !w.contains('='));
            }
            line = words.join(" ");
            match w {
                None => {
                    let k = t.usize(0, b.top.len());
                    b.top.insert(k, line.clone());
                }
                Some(d) => put_in(t, b, d, &line),
            }
        }
        "bad connection" => {
            let n = t.pick(&["a-b", "a.b", "x.gnd", "X1.0", "n(1)", "a/b", "#", "(a", "a,b", "a:1", "-1", "\u{e9}"]).to_string();
            let at = t.below(8) as usize;
            let mut ok = false;
            line = edit_inst(t, p, b, live, false, |w, def| {
                let ports = p.defs[def].ports.len();
                if ports > 0 {
                    w[1 + at % ports] = n;
                    ok = true;
                }
            })?;
            if !ok {
                return None;
            }
        }
        "not text" => {
            // a byte that isn't text, in a new line or in one there is
            if t.chance(1, 2) {
                line = match t.usize(0, 3) {
                    0 => format!("Rf {} {} 1{}k", a, o, NOT_TEXT),
                    1 => format!("R{}f {} {} 1k", NOT_TEXT, a, o),
                    2 => format!("Rf f{} {} 1k", NOT_TEXT, o),
                    _ => format!("Vf {} {} SIN(0 1 1k{})", a, o, NOT_TEXT),
                };
                put(t, b, live, &line);
            } else {
                let n = b.top.len();
                let c = b.control.len();
                let k = t.usize(0, n + c - 1);
                let l = if k < n { &mut b.top[k] } else { &mut b.control[k - n] };
                let at = t.usize(0, l.len());
                if l.is_char_boundary(at) {
                    l.insert(at, NOT_TEXT);
                } else {
                    l.push(NOT_TEXT);
                }
                line = l.clone();
            }
        }
        "bad library line" => {
            if !b.lib {
                // (as much as any other line)
                line = t.pick(&[".lib", ".lib parts.lib", ".lib a b c", ".lib deck.spi"]).to_string();
                let k = t.usize(0, b.top.len());
                b.top.insert(k, line.clone());
            } else if t.chance(1, 5) {
                b.endl = false;
                line = "(no .endl)".to_string();
            } else {
                b.lib_line = t.pick(&[".lib parts.lib sect sect", ".lib parts.lib sect x y", ".lib parts.lib", ".lib sect", ".lib parts.lib sec", ".lib parts.lib sect1", ".lib parts.li sect", ".lib parts.lib SECT"]).to_string();
                line = b.lib_line.clone();
            }
        }
        "no file" => {
            line = t.pick(&["nosuch.spi", "adir", "", "deck.spi/", "deck.sp", "nosuch/deck.spi"]).to_string();
            b.arg = Some(line.clone());
        }
        "control never closed" => {
            b.endc = false;
            line = "(no .endc)".to_string();
            if !b.defs.is_empty() && t.chance(1, 2) {
                b.last = Some(t.usize(0, b.defs.len() - 1));
            }
        }
        _ => {
            let bad = *t.pick(&["zp=", "zp=abc", "zp=1=2", "zp={", "zp={a", "zp={a+b}", "zp=-"]);
            if !live.is_empty() && t.chance(1, 2) {
                let d = *t.pick(live);
                b.defs[d][0] += &format!(" {}", bad);
                line = b.defs[d][0].clone();
            } else {
                line = edit_inst(t, p, b, live, false, |w, _| w.push(bad.to_string()))?;
            }
        }
    }
    Some(line)
}

fn c17(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let o = ProgOpts {
        defs: (0, 4),
        caps: true,
        diodes: false,
        dep: t.chance(1, 3),
        sources: true,
        vary: t.chance(1, 2),
        params: 2,
        max_els: 30,
        dup_names: false,
        any_value: false,
    };
    let p = prog(t, &o, &sc);
    let live = reachable(&p);
    let (top, defs) = p.blocks();
    let step = num::number(t, -9, 0, false);
    let stop = num::exact(step.val * t.int(1, 8) as f64);
    let mut control = vec![format!("tran {} {}", step.text, stop.text)];
    if t.chance(1, 4) {
        control.insert(0, "option RELTOL=1e-3".to_string());
    }
    let kind = *t.pick(&KINDS);
    // (most faults of libraries need one)
    let lib = !p.defs.is_empty() && if kind == "bad library line" { t.chance(3, 4) } else { t.chance(1, 6) };
    let mut b = Blocks { top, defs, control, lib, last: None, endc: true, lib_line: ".lib parts.lib sect".into(), endl: true, arg: None };
    // a deck file can have the name of a definition
    let file = match p.defs.len() {
        0 => "deck.spi".to_string(),
        n if t.chance(1, 6) => p.defs[t.usize(0, n - 1)].name.clone(),
        _ => "deck.spi".to_string(),
    };
    if file != "deck.spi" {
        ctx.label("deck file with the name of a definition");
    }

    let go = |ctx: &mut Ctx, b: &Blocks| -> Result<(Ran, Vec<PathBuf>), Stop> {
        let (s, l) = b.text();
        let write = |name: &str, s: &str| {
            let path = sim::write_deck(ctx, name, s);
            if s.contains(NOT_TEXT) {
                let mut bytes = vec![];
                for c in s.chars() {
                    match c {
                        NOT_TEXT => bytes.push(0xff),
                        c => bytes.extend(c.to_string().bytes()),
                    }
                }
                fs::write(path, bytes).expect("deck");
            }
        };
        write(&file, &s);
        if let Some(l) = &l {
            write("parts.lib", l);
        }
        let _ = fs::create_dir_all(ctx.dir.join("adir"));
        clear(ctx);
        let r = run(ctx, Path::new(b.arg.as_deref().unwrap_or(&file)))?;
        let w = wave_files(&ctx.dir);
        let _ = fs::remove_file(ctx.dir.join(&file));
        Ok((r, w))
    };

    // without the fault
    ctx.show = format!("file {}\n{}", file, b.text().0);
    let (r, w) = go(ctx, &b)?;
    ensure!(
        r.code == Some(0) && w.len() == 1,
        "the deck is not simulated (exit {:?}, signal {:?}, {} waveform files):\n{}",
        r.code, r.signal, w.len(), r.tail()
    );
    let wave = sim::parse_wave(&w[0])?;
    ensure!(!wave.t.is_empty(), "no rows in the waveforms of a good deck");

    // with it
    let what = match plant(t, kind, &p, &mut b, &live) {
        Some(w) => w,
        None => return Ok(Verdict::Discard),
    };
    let (s, l) = b.text();
    ctx.show = format!("file {}, fault: {}: {}\n{}{}", file, kind, what, s, l.map(|l| format!("--- parts.lib\n{}", l)).unwrap_or_default());
    let (r, w) = go(ctx, &b)?;
    ensure!(w.is_empty(), "the deck is simulated although it has a fault ({}: '{}'); the program says:\n{}", kind, what, r.tail());
    ensure!(r.signal.is_none(), "the program died with signal {:?} over a fault ({}: '{}'):\n{}", r.signal, kind, what, r.tail());
    ensure!(r.complains(), "no error message for a fault ({}: '{}'); the program says:\n{}", kind, what, r.tail());
    ctx.label(kind);
    if lib {
        ctx.label("definitions in a library");
    }
    ctx.nontrivial = true;
    clear(ctx);
    Ok(Verdict::Pass)
}

// ------------------------------------------------------------------- C19

pub const C19: Prop = Prop {
    id: "C19",
    rule: "a deck with at least two subcircuit instances and six nodes whose waveforms were written by separate processes",
    quick: 8000,
    thorough: 160000,
    f: c19,
};

fn c19(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let o = ProgOpts {
        defs: (0, 5),
        caps: true,
        diodes: t.chance(1, 3),
        dep: t.chance(1, 3),
        sources: true,
        vary: t.chance(1, 2),
        params: 3,
        max_els: if t.chance(1, 6) { 120 } else { 40 },
        dup_names: t.chance(1, 3),
        any_value: false,
    };
    let p = prog(t, &o, &sc);
    let step = num::number(t, sc.t.0, sc.t.1, false);
    let stop = num::exact(step.val * t.int(1, 10) as f64);
    let control = vec![format!("tran {} {}", step.text, stop.text)];
    let s = p.deck(t, &control);
    ctx.show = s.clone();
    sim::write_deck(ctx, "deck.spi", &s);
    let runs = t.usize(2, 4);
    let mut first: Option<Vec<(PathBuf, Vec<u8>)>> = None;
    for k in 0..runs {
        clear(ctx);
        let r = run(ctx, Path::new("deck.spi"))?;
        let files: Vec<(PathBuf, Vec<u8>)> = wave_files(&ctx.dir).into_iter().map(|f| { let b = fs::read(&f).unwrap_or_default(); (f, b) }).collect();
        ensure!(!files.is_empty() && r.code == Some(0), "no waveform file in run {} (exit {:?}):\n{}", k, r.code, r.tail());
        match &first {
            None => first = Some(files),
            Some(f) => {
                if *f != files {
                    let a = String::from_utf8_lossy(&f[0].1).into_owned();
                    let b = String::from_utf8_lossy(&files[0].1).into_owned();
                    let n = a.lines().zip(b.lines()).position(|(x, y)| x != y);
                    match n {
                        Some(n) => fail!("run {} of the same deck wrote different waveforms; line {}:\n{}\nand\n{}", k, n, a.lines().nth(n).unwrap_or(""), b.lines().nth(n).unwrap_or("")),
                        None => fail!("run {} of the same deck wrote different files: {:?} and {:?}", k, f.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>(), files.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>()),
                    }
                }
            }
        }
    }
    clear(ctx);
    let fl = crate::deck::flatten(&p, 0.03);
    kinds(ctx, &fl.flat);
    ctx.label(&format!("{} processes", runs));
    ctx.nontrivial = fl.insts >= 2 && fl.flat.n >= 6;
    Ok(Verdict::Pass)
}

// ------------------------------------------------------------------- C25

pub const C25: Prop = Prop {
    id: "C25",
    rule: "a transient that writes at least three rows, and a fault that keeps some of them from being stored",
    quick: 25000,
    thorough: 500000,
    f: c25,
};

/// Run the program with its output in a pipe, files being limited to `limit` bytes
fn run_limited(ctx: &Ctx, deck: &Path, limit: Option<u64>) -> Result<Ran, String> {
    let mut cmd = Command::new(&ctx.cli);
    // SAFETY: setrlimit and signal only
    unsafe {
        cmd.pre_exec(move || {
            setrlimit(RLIMIT_CPU, &[CPU_SECONDS, CPU_SECONDS + 1]);
            if let Some(l) = limit {
                // writing beyond the limit gives an error, as a full disk does
                signal(SIGXFSZ, SIG_IGN);
                setrlimit(RLIMIT_FSIZE, &[l, l]);
            }
            Ok(())
        });
    }
    let o = cmd
        .arg(deck)
        .current_dir(&ctx.dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .expect("run the program");
    if o.status.signal() == Some(SIGXCPU) {
        return Err(format!("the program has not finished after {} s of processor time", CPU_SECONDS));
    }
    let mut out = String::from_utf8_lossy(&o.stdout).into_owned();
    out += &String::from_utf8_lossy(&o.stderr);
    Ok(Ran { out, code: o.status.code(), signal: o.status.signal() })
}

fn c25(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let sc = scale(t);
    let mut o = NetOpts { nodes: (1, 5), ..NetOpts::linear() };
    o.caps = (0, 3);
    let net = crate::deck::net(t, &o, &sc);
    let tm = super::tran::times(t, &sc);
    let text = net.deck(&tm.control());
    let deck = crate::sim::write_deck(ctx, "full.spi", &text);
    let deck = deck.strip_prefix(&ctx.dir).expect("prefix").to_path_buf();
    clear(ctx);
    let base = run_limited(ctx, &deck, None)?;
    let file = ctx.dir.join("waves/full.spi/tran.dat");
    let whole = fs::read(&file).unwrap_or_default();
    if base.complains() || whole.is_empty() {
        // not a deck to test this with
        return Ok(Verdict::Discard);
    }
    let rows = whole.iter().filter(|b| **b == b'\n').count();
    ctx.show = text;
    ensure!(whole.last() == Some(&b'\n'), "the last line of the waveform file isn't finished");
    clear(ctx);
    let kind = t.weighted(&[8, 2, 1, 1, 1]);
    match kind {
        0 => {
            let at = match t.weighted(&[3, 1, 1]) {
                0 => t.below(whole.len() as u64),
                // at the end of a line, or just the last bytes missing
                1 => {
                    let ends: Vec<u64> = (0..whole.len() as u64 - 1).filter(|k| whole[*k as usize] == b'\n').map(|k| k + 1).collect();
                    *t.pick(&ends)
                }
                _ => whole.len() as u64 - 1 - t.below(20.min(whole.len() as u64)),
            };
            ctx.show += &format!("(no room for more than {} of {} bytes)\n", at, whole.len());
            ctx.label("file limited in size");
            let r = run_limited(ctx, &deck, Some(at))?;
            let got = fs::read(&file).unwrap_or_default();
            ensure!(whole.starts_with(&got), "with room for {} bytes, the file isn't the beginning of what it is otherwise", at);
            ensure!(r.complains(), "only {} of {} bytes of the waveforms could be stored, and the program says nothing of it:\n{}", got.len(), whole.len(), r.tail());
        }
        1 => {
            ctx.label("no space on the device");
            fs::create_dir_all(file.parent().unwrap()).expect("scratch");
            std::os::unix::fs::symlink("/dev/full", &file).expect("scratch");
            ctx.show += "(tran.dat is /dev/full)\n";
            let r = run_limited(ctx, &deck, None)?;
            ensure!(r.complains(), "the waveforms could not be stored, and the program says nothing of it:\n{}", r.tail());
        }
        2 => {
            ctx.label("a directory in place of the file");
            fs::create_dir_all(&file).expect("scratch");
            ctx.show += "(tran.dat is a directory)\n";
            let r = run_limited(ctx, &deck, None)?;
            ensure!(r.complains(), "the waveforms could not be stored, and the program says nothing of it:\n{}", r.tail());
        }
        3 => {
            ctx.label("a file in place of the directory");
            let d = file.parent().unwrap();
            if t.chance(1, 2) {
                fs::create_dir_all(d.parent().unwrap()).expect("scratch");
                fs::write(d, "x").expect("scratch");
            } else {
                fs::write(d.parent().unwrap(), "x").expect("scratch");
            }
            ctx.show += "(the directory of tran.dat is a file)\n";
            let r = run_limited(ctx, &deck, None)?;
            ensure!(r.complains(), "the waveforms could not be stored, and the program says nothing of it:\n{}", r.tail());
            let _ = fs::remove_file(ctx.dir.join("waves"));
        }
        _ => {
            // what was there before must not show
            ctx.label("an older, longer file");
            fs::create_dir_all(file.parent().unwrap()).expect("scratch");
            let mut old = whole.clone();
            old.extend_from_slice(b"9e9\t1\t2\t3\nleft over\n");
            fs::write(&file, &old).expect("scratch");
            ctx.show += "(a longer tran.dat is there already)\n";
            let r = run_limited(ctx, &deck, None)?;
            ensure!(!r.complains(), "the program complains when there is a file already:\n{}", r.tail());
            let got = fs::read(&file).unwrap_or_default();
            ensure!(got == whole, "the file depends on what was there before");
        }
    }
    ctx.nontrivial = rows >= 5;
    Ok(Verdict::Pass)
}
