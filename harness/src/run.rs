//! Runner: shards in child processes, panics and crashes, shrinking, replay
//! files, known findings, evidence.

use crate::tape::{hash_str, mix, shrink, Tape};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A case that held: either it was evaluated, or it fell outside the domain
pub enum Verdict {
    Pass,
    Discard,
}

/// A case that did not hold
pub enum Stop {
    Fail(String),
    /// breaks the property in a way that may be listed as a known finding
    Known { key: &'static str, msg: String },
}

impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Fail(s)
    }
}

pub type Res = Result<Verdict, Stop>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::run::Stop::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::run::Stop::Fail(format!($($a)*))) } };
}

pub struct Ctx {
    /// scratch directory of this shard
    pub dir: PathBuf,
    /// the program built from /repo
    pub cli: PathBuf,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub show: String,
    pub maxima: BTreeMap<String, f64>,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    /// Keep the largest value seen of some measurement (e.g. error/tolerance)
    pub fn maximum(&mut self, l: &str, v: f64) {
        let e = self.maxima.entry(l.to_string()).or_insert(0.0);
        if v > *e {
            *e = v;
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Tape, &mut Ctx) -> Res,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Run something of the code under test that may panic
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

fn run_case(p: &Prop, t: &mut Tape, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = false;
    ctx.show.clear();
    match catch_unwind(AssertUnwindSafe(|| (p.f)(t, ctx))) {
        Ok(r) => r,
        Err(_) => Err(Stop::Fail(PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

fn case_seed(id: &str, seed: u64, idx: u64) -> u64 {
    mix(mix(hash_str(id), seed), idx)
}

fn new_ctx(dir: &Path) -> Ctx {
    fs::create_dir_all(dir).expect("scratch");
    Ctx {
        dir: dir.to_path_buf(),
        cli: PathBuf::from(std::env::var("VERIF_CLI").unwrap_or_default()),
        labels: BTreeMap::new(),
        nontrivial: false,
        show: String::new(),
        maxima: BTreeMap::new(),
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn tape_text(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut o: String = s.chars().take(n).collect();
        o.push_str(" ...");
        o
    }
}

/// Known findings: `KNOWN property=<id> key=<key> <text>`
fn known_keys(id: &str) -> Vec<(String, String)> {
    let path = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    let mut v = vec![];
    for line in fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("KNOWN property=") {
            let mut it = rest.splitn(3, ' ');
            let pid = it.next().unwrap_or("");
            let key = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("").to_string();
            let txt = it.next().unwrap_or("").to_string();
            if pid == id {
                v.push((key, txt));
            }
        }
    }
    v
}

// ------------------------------------------------------------------ child

pub fn shard(p: &'static Prop, tier: &str, seed: u64, k: u64, n: u64, out: PathBuf) {
    let cases = if tier == "thorough" { p.thorough } else { p.quick };
    let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(cases);
    let known = known_keys(p.id);
    let mut ctx = new_ctx(&out.join(format!("s{}", k)));
    let progress = fs::File::create(out.join(format!("progress{}", k))).expect("progress");
    let beat = RefCell::new(0u64);
    let tick = |idx: u64| {
        *beat.borrow_mut() += 1;
        let _ = progress.write_at(&idx.to_le_bytes(), 0);
        let _ = progress.write_at(&beat.borrow().to_le_bytes(), 8);
    };

    let mut evals = 0u64;
    let mut discards = 0u64;
    let mut nontrivial = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known_seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut result = String::new();

    let judge = |r: Res, known_seen: Option<&mut BTreeMap<String, (u64, String)>>| -> Result<Verdict, String> {
        match r {
            Ok(v) => Ok(v),
            Err(Stop::Fail(m)) => Err(m),
            Err(Stop::Known { key, msg }) => {
                if known.iter().any(|(k, _)| k == key) {
                    if let Some(ks) = known_seen {
                        let e = ks.entry(key.to_string()).or_insert((0, msg));
                        e.0 += 1;
                    }
                    Ok(Verdict::Pass)
                } else {
                    Err(msg)
                }
            }
        }
    };

    let mut idx = k;
    while idx < cases {
        tick(idx);
        let mut t = Tape::random(case_seed(p.id, seed, idx));
        let r = run_case(p, &mut t, &mut ctx);
        match judge(r, Some(&mut known_seen)) {
            Ok(Verdict::Discard) => discards += 1,
            Ok(Verdict::Pass) => {
                evals += 1;
                if ctx.nontrivial {
                    nontrivial += 1;
                    hashes.insert(hash_str(&ctx.show));
                    if samples.len() < 2 {
                        samples.push(ctx.show.clone());
                    }
                }
            }
            Err(first) => {
                evals += 1;
                let began = Instant::now();
                let used = t.used.clone();
                // should shrinking take the process down, this is still known
                let found = format!("fail\t{}\t{}\t{}\t{}\n", idx, tape_text(&used), esc(&first), esc(&ctx.show));
                fs::write(out.join(format!("found{}", k)), found).expect("found");
                let small = shrink(
                    used,
                    |c| {
                        if began.elapsed() > Duration::from_secs(60) {
                            return None;
                        }
                        tick(idx);
                        let mut t = Tape::replay(c);
                        let r = run_case(p, &mut t, &mut ctx);
                        match judge(r, None) {
                            Err(_) => Some(t.used),
                            Ok(_) => None,
                        }
                    },
                    2500,
                );
                let mut t = Tape::replay(&small);
                let r = run_case(p, &mut t, &mut ctx);
                let msg = match judge(r, None) {
                    Err(m) => m,
                    Ok(_) => "(not reproduced after shrinking)".to_string(),
                };
                result += &format!("fail\t{}\t{}\t{}\t{}\n", idx, tape_text(&small), esc(&msg), esc(&ctx.show));
                break;
            }
        }
        idx += n;
    }

    result += &format!("evals\t{}\ndiscards\t{}\nnontrivial\t{}\n", evals, discards, nontrivial);
    for (l, c) in &ctx.labels {
        result += &format!("label\t{}\t{}\n", esc(l), c);
    }
    for (l, c) in &ctx.maxima {
        result += &format!("max\t{}\t{:e}\n", esc(l), c);
    }
    for s in &samples {
        result += &format!("sample\t{}\n", esc(s));
    }
    for (kf, (c, m)) in &known_seen {
        result += &format!("known\t{}\t{}\t{}\n", kf, c, esc(m));
    }
    let mut hv: Vec<u8> = vec![];
    for h in &hashes {
        hv.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(out.join(format!("hashes{}", k)), hv).expect("hashes");
    fs::write(out.join(format!("result{}.tmp", k)), result).expect("result");
    fs::rename(out.join(format!("result{}.tmp", k)), out.join(format!("result{}", k))).expect("rename");
}

/// Run one generated case (to confirm a crash, or to replay it)
pub fn one_case(p: &'static Prop, seed: u64, idx: u64, dir: &Path) -> i32 {
    let mut ctx = new_ctx(dir);
    let mut t = Tape::random(case_seed(p.id, seed, idx));
    report_one(p, &mut t, &mut ctx)
}

fn report_one(p: &Prop, t: &mut Tape, ctx: &mut Ctx) -> i32 {
    let r = run_case(p, t, ctx);
    eprintln!("--- case ---\n{}\n------------", ctx.show);
    eprintln!("measurements: {:?}; labels: {:?}", ctx.maxima, ctx.labels);
    match r {
        Ok(Verdict::Pass) => {
            eprintln!("PASS");
            0
        }
        Ok(Verdict::Discard) => {
            eprintln!("DISCARD");
            0
        }
        Err(Stop::Known { key, msg }) => {
            eprintln!("KNOWN key={} {}", key, msg);
            if known_keys(p.id).iter().any(|(k, _)| k == key) {
                0
            } else {
                1
            }
        }
        Err(Stop::Fail(m)) => {
            eprintln!("FAIL {}", m);
            1
        }
    }
}

pub fn replay(props: &'static [Prop], file: &Path, dir: &Path) -> i32 {
    let txt = fs::read_to_string(file).expect("replay file");
    let mut id = String::new();
    let mut tape: Option<Vec<u64>> = None;
    let mut generated: Option<(u64, u64)> = None;
    for line in txt.lines() {
        if let Some(v) = line.strip_prefix("property: ") {
            id = v.to_string();
        } else if let Some(v) = line.strip_prefix("tape: ") {
            tape = Some(v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
        } else if let Some(v) = line.strip_prefix("generated: ") {
            let b: Vec<u64> = v.split(' ').map(|s| s.parse().unwrap()).collect();
            generated = Some((b[0], b[1]));
        }
    }
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    if let Some(tape) = tape {
        let mut ctx = new_ctx(dir);
        let mut t = Tape::replay(&tape);
        report_one(p, &mut t, &mut ctx)
    } else {
        let (seed, idx) = generated.expect("bad replay file");
        one_case(p, seed, idx, dir)
    }
}

// ----------------------------------------------------------------- parent

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Seconds without a case coming to its end before a shard is taken to hang
const STALL: u64 = 150;

fn how(sig: i32) -> String {
    match sig {
        0 => format!("the code under test did not end in {} s", STALL),
        s => format!("the code under test died with signal {} (abort, stack overflow, runaway memory or output)", s),
    }
}

pub fn parent(p: &'static Prop, tier: &str, seed: u64, verif: &Path) -> i32 {
    let began = Instant::now();
    let n: u64 = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let out = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&out);
    fs::create_dir_all(&out).expect("scratch");
    let code = parent_in(p, tier, seed, verif, &out, n, began);
    let _ = fs::remove_dir_all(&out);
    code
}

fn parent_in(p: &'static Prop, tier: &str, seed: u64, verif: &Path, out: &Path, n: u64, began: Instant) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let mut kids: Vec<_> = (0..n)
        .map(|k| {
            Command::new(&exe)
                .args(["shard", p.id, tier, &seed.to_string(), &k.to_string(), &n.to_string()])
                .arg(out)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn shard")
        })
        .collect();

    let mut beats: Vec<(u64, Instant)> = (0..n).map(|_| (0, Instant::now())).collect();
    let mut status: Vec<Option<std::process::ExitStatus>> = vec![None; n as usize];
    let mut errors: Vec<String> = vec![];
    let mut stalled: Vec<usize> = vec![];
    loop {
        let mut alive = false;
        for k in 0..n as usize {
            if status[k].is_some() {
                continue;
            }
            if let Some(s) = kids[k].try_wait().expect("wait") {
                status[k] = Some(s);
                continue;
            }
            alive = true;
            let b = fs::read(out.join(format!("progress{}", k))).unwrap_or_default();
            if b.len() == 16 {
                let mut a = [0u8; 8];
                a.copy_from_slice(&b[8..]);
                let beat = u64::from_le_bytes(a);
                if beat != beats[k].0 {
                    beats[k] = (beat, Instant::now());
                }
            }
            if beats[k].1.elapsed() > Duration::from_secs(STALL) {
                let _ = kids[k].kill();
                let s = kids[k].wait().expect("wait");
                status[k] = Some(s);
                stalled.push(k);
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let (mut evals, mut discards, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, f64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut fails: Vec<(u64, String, String, String)> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut crashes: Vec<(u64, i32)> = vec![];
    let mut hangs: Vec<u64> = vec![];

    for k in 0..n as usize {
        let txt = match fs::read_to_string(out.join(format!("result{}", k))).or_else(|_| fs::read_to_string(out.join(format!("found{}", k)))) {
            Ok(t) => t,
            Err(_) => {
                let idx = fs::read(out.join(format!("progress{}", k))).ok().filter(|b| b.len() == 16).map(|b| {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(&b[..8]);
                    u64::from_le_bytes(a)
                });
                let sig = status[k].and_then(|s| s.signal());
                match (idx, sig) {
                    (Some(i), _) if stalled.contains(&k) => hangs.push(i),
                    // abort, bus error, segv, file size limit
                    (Some(i), Some(s)) if [6, 7, 11, 25].contains(&s) => crashes.push((i, s)),
                    _ => errors.push(format!("shard {} ended without a result: {:?}", k, status[k])),
                }
                continue;
            }
        };
        for line in txt.lines() {
            let b: Vec<&str> = line.split('\t').collect();
            match b[0] {
                "evals" => evals += b[1].parse::<u64>().unwrap(),
                "discards" => discards += b[1].parse::<u64>().unwrap(),
                "nontrivial" => nontrivial += b[1].parse::<u64>().unwrap(),
                "label" => *labels.entry(unesc(b[1])).or_insert(0) += b[2].parse::<u64>().unwrap(),
                "max" => {
                    let v: f64 = b[2].parse().unwrap();
                    let e = maxima.entry(unesc(b[1])).or_insert(0.0);
                    if v > *e {
                        *e = v
                    }
                }
                "sample" => samples.push(unesc(b[1])),
                "known" => {
                    let e = known.entry(b[1].to_string()).or_insert((0, unesc(b[3])));
                    e.0 += b[2].parse::<u64>().unwrap();
                }
                "fail" => fails.push((b[1].parse().unwrap(), b[2].to_string(), unesc(b[3]), unesc(b[4]))),
                _ => {}
            }
        }
        for c in fs::read(out.join(format!("hashes{}", k))).unwrap_or_default().chunks(8) {
            let mut a = [0u8; 8];
            a.copy_from_slice(c);
            hashes.insert(u64::from_le_bytes(a));
        }
    }

    // a crash (abort, stack overflow, runaway output) counts only if the same
    // case does it again on its own
    let mut confirmed: Vec<(u64, i32)> = vec![];
    for (idx, sig) in &crashes {
        let s = Command::new(&exe)
            .args(["case", p.id, &seed.to_string(), &idx.to_string()])
            .arg(out.join("confirm"))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("spawn");
        if s.signal() == Some(*sig) {
            confirmed.push((*idx, *sig));
        } else {
            errors.push(format!("case {} ended a shard with signal {} but not when run alone ({:?})", idx, sig, s));
        }
    }

    // so does a case that never ends (cases take milliseconds)
    for idx in hangs.iter().take(if fails.is_empty() && confirmed.is_empty() { 1 } else { 0 }) {
        let mut kid = Command::new(&exe)
            .args(["case", p.id, &seed.to_string(), &idx.to_string()])
            .arg(out.join("confirm"))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        let began = Instant::now();
        let mut over = false;
        while !over && began.elapsed() < Duration::from_secs(STALL) {
            over = kid.try_wait().expect("wait").is_some();
            std::thread::sleep(Duration::from_millis(20));
        }
        if over {
            errors.push(format!("case {} did not end in {} s, but did when run alone", idx, STALL));
        } else {
            let _ = kid.kill();
            let _ = kid.wait();
            confirmed.push((*idx, 0));
        }
    }

    // replay file
    let mut replay_path = None;
    fails.sort_by_key(|f| (f.1.len(), f.0));
    let rdir = verif.join("replays");
    if let Some((idx, tape, msg, show)) = fails.first() {
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}-case{}.txt", p.id, seed, idx));
        let body = format!(
            "property: {}\ntape: {}\nmessage: {}\nfound: tier {} seed {} case {}\nrerun: ./check.sh {} replay {}\n\n{}\n",
            p.id, tape, esc(msg), tier, seed, idx, p.id, path.display(), show
        );
        fs::write(&path, body).expect("replay file");
        println!("{}: {}", p.id, clip(msg, 1500));
        println!("--- minimal case ---\n{}\n--------------------", clip(show, 3000));
        replay_path = Some(path);
    } else if let Some((idx, sig)) = confirmed.first() {
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}-case{}.txt", p.id, seed, idx));
        fs::write(&path, format!("property: {}\ngenerated: {} {}\nmessage: {}\n", p.id, seed, idx, how(*sig))).expect("replay file");
        println!("{}: {}", p.id, how(*sig));
        replay_path = Some(path);
    }

    // evidence
    let violations = fails.len() + confirmed.len();
    let mut cov = String::new();
    cov += &format!("    \"evaluations\": {},\n", evals);
    cov += &format!("    \"distinct_nontrivial\": {},\n", hashes.len());
    cov += &format!("    \"nontrivial_before_deduplication\": {},\n", nontrivial);
    cov += &format!("    \"discarded_outside_domain\": {},\n", discards);
    cov += &format!("    \"rule\": {},\n", json_str(p.rule));
    cov += "    \"classes\": {";
    cov += &labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    cov += "},\n    \"largest_measured\": {";
    cov += &maxima.iter().map(|(k, v)| format!("{}: {}", json_str(k), json_str(&format!("{:.3e}", v)))).collect::<Vec<_>>().join(", ");
    cov += "},\n    \"known_findings_hit\": {";
    cov += &known.iter().map(|(k, v)| format!("{}: {}", json_str(k), v.0)).collect::<Vec<_>>().join(", ");
    cov += "},\n    \"samples\": [\n";
    samples.truncate(6);
    cov += &samples.iter().map(|s| format!("      {}", json_str(&clip(s, 2500)))).collect::<Vec<_>>().join(",\n");
    cov += "\n    ]\n";
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n{}  }},\n  \"errors\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(if tier == "thorough" { "thorough" } else { "quick" }),
        seed,
        cov,
        errors.iter().map(|e| json_str(e)).collect::<Vec<_>>().join(", "),
        began.elapsed().as_secs_f64(),
        violations
    );
    let evdir = verif.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", p.id)), ev).expect("evidence");

    let mut so = std::io::stdout();
    for (key, txt) in known_keys(p.id) {
        if let Some((c, m)) = known.get(&key) {
            let _ = writeln!(so, "KNOWN-FINDING: property={} {} [{} cases, e.g. {}]", p.id, txt, c, clip(m, 300));
        }
    }
    let _ = writeln!(
        so,
        "{} {}: {} cases evaluated, {} discarded, {} distinct non-trivial, {} violations, {:.1} s",
        p.id, tier, evals, discards, hashes.len(), violations, began.elapsed().as_secs_f64()
    );
    for e in &errors {
        let _ = writeln!(so, "ERROR {}", e);
    }
    if let Some(path) = replay_path {
        let _ = writeln!(so, "VIOLATION property={} replay={}", p.id, path.display());
        1
    } else if !errors.is_empty() {
        2
    } else if hashes.is_empty() {
        let _ = writeln!(so, "ERROR no non-trivial case was generated");
        2
    } else {
        0
    }
}
