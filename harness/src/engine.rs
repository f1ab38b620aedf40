//! Choice-tape property engine: every random decision of a case is a number
//! drawn from `Src` and recorded on a tape; a tape replays the case exactly, and
//! shrinking edits the tape.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fs,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- random source

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32) ^ 0xD6E8_FEB8_6659_FD93;
    let x = splitmix(&mut s);
    let mut s2 = x ^ b;
    splitmix(&mut s2)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>, usize),
    /// first draw is the given index (modulo its bound), the rest is random
    Walk(u64, u64),
}

pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
    journal: Option<fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(seed), tape: Vec::new(), journal: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(tape, 0), tape: Vec::new(), journal: None }
    }
    pub fn with_journal(mut self, f: fs::File) -> Self {
        self.journal = Some(f);
        self
    }

    /// A number in `0..n` (n = 0 stands for 2^64).
    pub fn below(&mut self, n: u64) -> u64 {
        if let Mode::Walk(i, s) = self.mode {
            let v = if n == 0 { i } else { i % n };
            self.mode = Mode::Random(s);
            self.push(v);
            return v;
        }
        let v = match &mut self.mode {
            Mode::Walk(..) => unreachable!(),
            Mode::Random(s) => {
                let r = splitmix(s);
                if n == 0 {
                    r
                } else {
                    ((r as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
        };
        self.push(v);
        v
    }
    fn push(&mut self, v: u64) {
        self.tape.push(v);
        if let Some(j) = &mut self.journal {
            let _ = j.write_all(&v.to_le_bytes());
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn rangei(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi.wrapping_sub(lo) as u64).wrapping_add(1)) as i64)
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= *k;
        }
        w.len() - 1
    }
    /// small number, geometric-ish, capped
    pub fn small(&mut self, cap: u64) -> u64 {
        let k = self.below(4);
        match k {
            0 => self.below(3.min(cap + 1)),
            1 | 2 => self.below(8.min(cap + 1)),
            _ => self.below(cap + 1),
        }
    }
    /// `len` bytes from a single drawn number (0 → all zero bytes)
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let seed = self.below(1 << 32);
        expand(seed, len)
    }
    /// a short byte string drawn byte by byte with a bias to special bytes
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.usize(max + 1);
        (0..n)
            .map(|_| {
                if self.chance(1, 3) {
                    *self.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe, 0xfb, 0xfc, 0xfd, 0x1a, b'\'', b'"', b'\\', b'`', b'%', b'\n'])
                } else {
                    self.below(256) as u8
                }
            })
            .collect()
    }
    /// integer biased towards boundaries, within [lo, hi]
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        match self.below(4) {
            0 => {
                let cands: Vec<i128> = [
                    0, 1, -1, lo, hi, lo + 1, hi - 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -128, -129,
                    -32768, -32769, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 250, 251, 252, 253, 254,
                    0xFFFFFF, 0x1000000, 10, 99, 100, 1 << 53, i64::MAX as i128, i64::MIN as i128,
                ]
                .into_iter()
                .filter(|x| *x >= lo && *x <= hi)
                .collect();
                *self.pick(&cands)
            }
            1 => {
                let span = (hi - lo) as u128;
                let bits = 128 - span.leading_zeros() as u64;
                let b = self.below(bits + 1);
                let m = if b >= 64 { u64::MAX } else { (1u64 << b).wrapping_sub(1) };
                let v = (self.u64() & m) as i128;
                let v = if lo < 0 && self.bool() { -v } else { v };
                v.clamp(lo, hi)
            }
            _ => {
                let span = (hi - lo) as u128 + 1;
                if span > u64::MAX as u128 {
                    lo + self.u64() as i128
                } else {
                    lo + self.below(span as u64) as i128
                }
            }
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.usize(max + 1);
        (0..n).map(|_| self.ch()).collect()
    }
    pub fn ch(&mut self) -> char {
        match self.below(8) {
            0 | 1 | 2 => (b'a' + self.below(26) as u8) as char,
            3 => *self.pick(&[
                ' ', '\'', '"', '\\', '`', '\0', '\n', '\r', '\t', '\u{8}', '\u{1a}', '%', '_', '.', ';', '-', '#', '/', '*', '$', '0', '9', '?', ',', '(',
            ]),
            4 => char::from_u32(self.below(0x80) as u32).unwrap_or('x'),
            5 => *self.pick(&['ä', 'ß', '\u{80}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '日', '\u{feff}', '\u{85}']),
            6 => char::from_u32(self.below(0x10000) as u32).unwrap_or('\u{fffd}'),
            _ => char::from_u32(self.below(0x110000) as u32).unwrap_or('z'),
        }
    }
}

pub fn expand(seed: u64, len: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; len];
    }
    let mut s = seed;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    v.truncate(len);
    v
}

// ---------------------------------------------------------------- case context

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return $crate::engine::fail($sig, format!($($a)*)); } };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub note: String,
    pub evals: u64,
    pub verbose: bool,
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into())
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.note.len() < 4000 {
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(s.as_ref());
        }
        if self.verbose {
            eprintln!("note: {}", s.as_ref());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// exhaustive enumeration: (number of cases) → case i is given tape [i]
    pub enumerated: bool,
}

pub const fn part(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Part {
    Part { name, quick, thorough, f, enumerated: false }
}
/// case i starts its tape with i (so a driver may walk a finite space), the rest is random
pub const fn walk(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Part {
    Part { name, quick, thorough, f, enumerated: true }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

// ---------------------------------------------------------------- running one case

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// panic payload used by harness code to signal a property failure from inside callbacks
pub struct FailPanic(pub Fail);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let quiet = QUIET.with(|q| *q.borrow());
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc.clone(), msg.clone()));
            }
        });
        if !quiet {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

pub enum Outcome {
    Pass,
    Fail(Fail),
    HarnessError(String),
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    PANIC.with(|p| *p.borrow_mut() = None);
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    crate::alloc::case_start();
    let r = catch(|| f(src, ctx));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err((loc, msg)) => {
            if loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("/verif/gen") {
                if let Some(rest) = msg.strip_prefix("PROPFAIL ") {
                    let (sig, m) = rest.split_once('|').unwrap_or((rest, ""));
                    return Outcome::Fail(Fail { sig: sig.into(), msg: m.into() });
                }
                Outcome::HarnessError(format!("harness panic at {loc}: {msg}"))
            } else {
                // strip line numbers so that the signature is stable
                let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc).to_string();
                Outcome::Fail(Fail { sig: format!("panic:{file}"), msg: format!("library panicked at {loc}: {msg}") })
            }
        }
    }
}

// ---------------------------------------------------------------- shrinking

fn shrink(f: CaseFn, tape: Vec<u64>, orig: Fail, budget: Duration) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_fail = orig;
    let sig = best_fail.sig.clone();
    let execs = RefCell::new(0u32);
    let try_tape = |t: &[u64]| -> Option<(Vec<u64>, Fail)> {
        *execs.borrow_mut() += 1;
        let mut s = Src::replay(t.to_vec());
        let mut c = Ctx::default();
        match run_case(f, &mut s, &mut c) {
            Outcome::Fail(x) if x.sig == sig => Some((s.tape, x)),
            _ => None,
        }
    };
    let done = || start.elapsed() > budget || *execs.borrow() > 4000;
    let simpler = |a: &[u64], b: &[u64]| (a.len(), a.iter().map(|x| (64 - x.leading_zeros()) as u64).sum::<u64>(), a.to_vec()) < (b.len(), b.iter().map(|x| (64 - x.leading_zeros()) as u64).sum::<u64>(), b.to_vec());
    loop {
        let mut improved = false;
        // deletion
        let mut size = 64usize.min(best.len().max(1));
        while size >= 1 && !done() {
            let mut i = 0;
            while i + size <= best.len() && !done() {
                let mut t = best.clone();
                t.drain(i..i + size);
                if let Some((tt, x)) = try_tape(&t) {
                    if simpler(&tt, &best) {
                        best = tt;
                        best_fail = x;
                        improved = true;
                        continue;
                    }
                }
                i += if size > 4 { size / 2 } else { 1 };
            }
            size /= 2;
        }
        // values
        let mut i = 0;
        while i < best.len() && !done() {
            if best[i] != 0 {
                for cand in [0, 1, best[i] / 2, best[i] - 1] {
                    if cand >= best[i] {
                        continue;
                    }
                    let mut t = best.clone();
                    t[i] = cand;
                    if let Some((tt, x)) = try_tape(&t) {
                        if simpler(&tt, &best) {
                            best = tt;
                            best_fail = x;
                            improved = true;
                            break;
                        }
                    }
                    if done() {
                        break;
                    }
                }
                // decrement a count while deleting what it governed
                if i < best.len() && best[i] > 0 && best[i] < 64 {
                    for del in 1..=6 {
                        if done() || i + 1 + del > best.len() {
                            break;
                        }
                        let mut t = best.clone();
                        t[i] -= 1;
                        t.drain(i + 1..i + 1 + del);
                        if let Some((tt, x)) = try_tape(&t) {
                            if simpler(&tt, &best) {
                                best = tt;
                                best_fail = x;
                                improved = true;
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || done() {
            break;
        }
    }
    (best, best_fail)
}

// ---------------------------------------------------------------- driver

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn known(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let v: serde_json::Value = fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    let mut out = Vec::new();
    if let Some(a) = v["findings"].as_array() {
        for x in a {
            if x["property"] == id {
                out.push((x["signature"].as_str().unwrap_or("").to_string(), x["what"].as_str().unwrap_or("").to_string()));
            }
        }
    }
    out
}

static HEART: AtomicU64 = AtomicU64::new(0);

/// CPU time used by this process, in milliseconds
pub fn cpu_ms() -> u64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, ts: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(2, &mut t) };
    t.0 as u64 * 1000 + t.1 as u64 / 1_000_000
}

/// CPU seconds after which one case counts as an endless loop (ordinary cases need less than two)
const SPIN: u64 = 60;

fn watchdog() {
    // a case that waits longer than this of wall-clock time is an error of the check, not a violation;
    // one that uses CPU time without end is a violation
    let limit = 240;
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut same = 0;
        let mut cpu = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let h = HEART.load(Ordering::Relaxed);
            if h == last {
                same += 1;
                if cpu_ms() - cpu > SPIN * 1000 {
                    eprintln!("one case used more than {SPIN} s of CPU time");
                    std::process::exit(88);
                }
                if same > limit {
                    eprintln!("watchdog: one case exceeded {limit} s");
                    std::process::exit(87);
                }
            } else {
                same = 0;
                last = h;
                cpu = cpu_ms();
            }
        }
    });
}

struct Worker<'a> {
    prop: &'a Prop,
    tier: &'a str,
    seed: u64,
}

impl Worker<'_> {
    fn total(&self) -> u64 {
        self.prop.parts.iter().map(|p| self.count(p)).sum()
    }
    fn count(&self, p: &Part) -> u64 {
        if let Ok(only) = std::env::var("MCHECK_PART") {
            if only != p.name {
                return 0;
            }
        }
        let base = if self.tier == "thorough" { p.thorough } else { p.quick };
        match std::env::var("MCHECK_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(k) if !p.enumerated => ((base as f64 * k) as u64).max(1),
            _ => base,
        }
    }
    fn locate(&self, mut i: u64) -> (usize, u64) {
        for (k, p) in self.prop.parts.iter().enumerate() {
            let c = self.count(p);
            if i < c {
                return (k, i);
            }
            i -= c;
        }
        unreachable!()
    }
    fn src(&self, part: usize, idx: u64) -> Src {
        let p = &self.prop.parts[part];
        let s = mix(mix(self.seed, hash_bytes(self.prop.id.as_bytes()) ^ hash_bytes(p.name.as_bytes())), idx);
        let mut src = Src::random(s);
        if p.enumerated {
            src = Src { mode: Mode::Walk(idx, s), tape: Vec::new(), journal: None };
        }
        src
    }
}

fn run_dir(id: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("mcheck-{}-{}", id, std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}

fn worker_main(w: &Worker, stripe: u64, n: u64, dir: &Path) -> i32 {
    use std::os::unix::fs::FileExt;
    watchdog();
    let start = Instant::now();
    let soft = Duration::from_secs(if w.tier == "thorough" { 3000 } else { 400 });
    let journal = fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("j{stripe}"))).unwrap();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut evals = 0u64;
    let mut executed = 0u64;
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let known = known(w.prop.id);
    let mut per_part: BTreeMap<String, u64> = BTreeMap::new();
    let mut part_samples: BTreeMap<String, u32> = BTreeMap::new();
    let total = w.total();
    let mut truncated = false;
    let mut violation = None;
    let mut i = stripe;
    while i < total {
        if start.elapsed() > soft {
            truncated = true;
            break;
        }
        journal.write_at(&i.to_le_bytes(), 0).unwrap();
        HEART.fetch_add(1, Ordering::Relaxed);
        let (pi, idx) = w.locate(i);
        let part = &w.prop.parts[pi];
        let mut src = w.src(pi, idx);
        let mut ctx = Ctx::default();
        let out = run_case(part.f, &mut src, &mut ctx);
        executed += 1;
        evals += ctx.evals.max(1);
        *per_part.entry(part.name.into()).or_default() += 1;
        for l in &ctx.labels {
            *labels.entry(l.clone()).or_default() += 1;
        }
        if ctx.nontrivial {
            let mut h = pi as u64;
            for x in &src.tape {
                h = mix(h, *x);
            }
            hashes.insert(h);
            let ps = part_samples.entry(part.name.into()).or_default();
            if *ps < 2 && !ctx.note.is_empty() {
                *ps += 1;
                samples.push(format!("[{}] {}", part.name, ctx.note));
            }
        }
        match out {
            Outcome::Pass => {}
            Outcome::Fail(f) => {
                if let Some(k) = known.iter().find(|k| k.0 == f.sig) {
                    let e = known_hits.entry(k.0.clone()).or_insert((0, k.1.clone()));
                    e.0 += 1;
                } else {
                    let (tape, f2) = shrink(part.f, src.tape.clone(), f, Duration::from_secs(20));
                    let mut s = Src::replay(tape.clone());
                    let mut c = Ctx::default();
                    let _ = run_case(part.f, &mut s, &mut c);
                    violation = Some(serde_json::json!({"property": w.prop.id, "part": part.name, "tape": tape, "signature": f2.sig, "message": f2.msg, "case": c.note, "seed": w.seed, "tier": w.tier, "index": idx}));
                    break;
                }
            }
            Outcome::HarnessError(e) => {
                eprintln!("HARNESS ERROR part={} index={} : {}", part.name, idx, e);
                fs::write(dir.join(format!("e{stripe}")), e).unwrap();
                return 3;
            }
        }
        i += n;
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("h{stripe}")), hb).unwrap();
    let r = serde_json::json!({"labels": labels, "samples": samples, "evals": evals, "executed": executed, "parts": per_part, "truncated": truncated,
        "known": known_hits.iter().map(|(k,v)| serde_json::json!({"sig": k, "n": v.0, "what": v.1})).collect::<Vec<_>>(), "violation": violation});
    fs::write(dir.join(format!("r{stripe}")), serde_json::to_vec(&r).unwrap()).unwrap();
    0
}

fn write_replay(v: &serde_json::Value) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = fs::create_dir_all(&d);
    let s = serde_json::to_string_pretty(v).unwrap();
    let p = d.join(format!("{}-{:016x}.json", v["property"].as_str().unwrap(), hash_bytes(s.as_bytes())));
    fs::write(&p, s).unwrap();
    p
}

fn child_case(prop: &Prop, part: &str, tape: Option<&[u64]>, index: Option<u64>, tier: &str, seed: u64, dir: &Path) -> (Option<i32>, Vec<u64>, String) {
    let jf = dir.join("childtape");
    let _ = fs::remove_file(&jf);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("case").arg(prop.id).arg(part).arg(tier).arg(seed.to_string()).arg(&jf);
    if let Some(t) = tape {
        let tf = dir.join("intape");
        let mut b = Vec::new();
        for x in t {
            b.extend_from_slice(&x.to_le_bytes());
        }
        fs::write(&tf, b).unwrap();
        c.arg("tape").arg(&tf);
    } else {
        c.arg("index").arg(index.unwrap().to_string());
    }
    let out = c.stdin(Stdio::null()).output().unwrap();
    let tape = fs::read(&jf).unwrap_or_default().chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
    use std::os::unix::process::ExitStatusExt;
    let code = out.status.code().or(out.status.signal().map(|s| 128 + s));
    (code, tape, String::from_utf8_lossy(&out.stderr).chars().rev().take(600).collect::<String>().chars().rev().collect())
}

fn is_crash(c: Option<i32>) -> bool {
    matches!(c, Some(x) if x == 86 || x == 88 || x == 101 || x > 128)
}

pub fn run_prop(prop: &Prop, tier: &str, seed: u64, extra: Option<serde_json::Value>) -> i32 {
    let start = Instant::now();
    let dir = run_dir(prop.id);
    let n: u64 = std::env::var("MCHECK_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut kids = Vec::new();
    for s in 0..n {
        let c = Command::new(std::env::current_exe().unwrap())
            .arg("worker").arg(prop.id).arg(tier).arg(seed.to_string()).arg(s.to_string()).arg(n.to_string()).arg(&dir)
            .stdin(Stdio::null()).stderr(fs::File::create(dir.join(format!("err{s}"))).unwrap())
            .spawn().unwrap();
        kids.push(c);
    }
    let w = Worker { prop, tier, seed };
    let mut violation: Option<serde_json::Value> = None;
    let mut error: Option<String> = None;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut parts: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut evals = 0;
    let mut executed = 0;
    let mut truncated = false;
    let mut known_seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    // as soon as one worker found a violation, the others are stopped
    let mut ended: Vec<Option<std::process::ExitStatus>> = vec![None; kids.len()];
    let mut stop = false;
    let mut order: Vec<usize> = Vec::new();
    while order.len() < kids.len() {
        for (s, k) in kids.iter_mut().enumerate() {
            if ended[s].is_none() {
                if let Some(st) = k.try_wait().unwrap() {
                    ended[s] = Some(st);
                    order.push(s);
                    let bad = match st.code() {
                        Some(0) => fs::read(dir.join(format!("r{s}"))).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()).is_some_and(|r| !r["violation"].is_null()),
                        c => c.is_none() || is_crash(c),
                    };
                    stop |= bad;
                }
            }
        }
        if stop {
            for (s, k) in kids.iter_mut().enumerate() {
                if ended[s].is_none() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for s in order {
        let st = ended[s].unwrap();
        if st.code() == Some(0) {
            let r: serde_json::Value = serde_json::from_slice(&fs::read(dir.join(format!("r{s}"))).unwrap()).unwrap();
            for (k, v) in r["labels"].as_object().unwrap() {
                *labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
            }
            for (k, v) in r["parts"].as_object().unwrap() {
                *parts.entry(k.clone()).or_default() += v.as_u64().unwrap();
            }
            for x in fs::read(dir.join(format!("h{s}"))).unwrap().chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(x.try_into().unwrap()));
            }
            if s < 3 {
                for x in r["samples"].as_array().unwrap() {
                    if samples.len() < 16 {
                        samples.push(x.as_str().unwrap().chars().take(900).collect());
                    }
                }
            }
            evals += r["evals"].as_u64().unwrap();
            executed += r["executed"].as_u64().unwrap();
            truncated |= r["truncated"].as_bool().unwrap();
            for k in r["known"].as_array().unwrap() {
                let e = known_seen.entry(k["sig"].as_str().unwrap().into()).or_insert((0, k["what"].as_str().unwrap().into()));
                e.0 += k["n"].as_u64().unwrap();
            }
            if !r["violation"].is_null() && violation.is_none() {
                violation = Some(r["violation"].clone());
            }
        } else if st.code() == Some(3) || st.code() == Some(87) {
            let e = fs::read_to_string(dir.join(format!("err{s}"))).unwrap_or_default();
            error = Some(format!("worker {s}: {}", e.trim()));
        } else {
            if violation.is_some() {
                continue;
            }
            // crash: confirm in a child, then shrink by child runs
            let j = fs::read(dir.join(format!("j{s}"))).unwrap_or_default();
            let e = fs::read_to_string(dir.join(format!("err{s}"))).unwrap_or_default();
            if j.len() < 8 {
                error = Some(format!("worker {s} died before its first case: {st:?} {e}"));
                continue;
            }
            let i = u64::from_le_bytes(j[..8].try_into().unwrap());
            let (pi, idx) = w.locate(i);
            let part = &prop.parts[pi];
            let (code, tape, err) = child_case(prop, part.name, None, Some(idx), tier, seed, &dir);
            // it fails by itself; the worker died while it was reduced
            let sig = err.split(" | ").next().unwrap_or("").trim().to_string();
            if code == Some(1) && !known(prop.id).iter().any(|k| k.0 == sig) {
                if violation.is_none() {
                    violation = Some(serde_json::json!({"property": prop.id, "part": part.name, "tape": tape, "signature": sig, "message": err, "seed": seed, "tier": tier, "index": idx}));
                }
                continue;
            }
            if !is_crash(code) {
                error = Some(format!("worker {s} died ({st:?}) at part {} case {idx} but the case alone does not: {code:?}\n{e}", part.name));
                continue;
            }
            let mut best = tape;
            let mut best_err = err;
            let t0 = Instant::now();
            let mut size = 32usize;
            while code != Some(88) && size >= 1 && t0.elapsed() < Duration::from_secs(40) {
                let mut i = 0;
                while i + size <= best.len() && t0.elapsed() < Duration::from_secs(40) {
                    let mut t = best.clone();
                    t.drain(i..i + size);
                    let (c, tt, er) = child_case(prop, part.name, Some(&t), None, tier, seed, &dir);
                    if is_crash(c) && tt.len() < best.len() {
                        best = tt;
                        best_err = er;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
            if violation.is_none() {
                violation = Some(serde_json::json!({"property": prop.id, "part": part.name, "tape": best, "signature": if code == Some(88) { "endless-loop" } else { "abort" }, "message": format!("process died: {code:?}: {best_err}"), "seed": seed, "tier": tier, "index": idx}));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let mut code = 0;
    // known findings: every listed one is announced if it was met
    for (_, what) in known(prop.id).iter().filter(|k| known_seen.contains_key(&k.0)) {
        println!("KNOWN-FINDING: property={} {}", prop.id, what);
    }
    if let Some(v) = &violation {
        let p = write_replay(v);
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        println!("  signature: {}", v["signature"].as_str().unwrap_or(""));
        println!("  {}", v["message"].as_str().unwrap_or(""));
        println!("  case: {}", v["case"].as_str().unwrap_or(""));
        code = 1;
    } else if let Some(e) = &error {
        println!("ERROR property={} {}", prop.id, e);
        code = 2;
    }
    let mut cov = serde_json::json!({"evaluations": evals, "distinct_nontrivial": hashes.len(), "rule": prop.rule, "samples": samples,
        "cases_executed": executed, "cases_per_part": parts, "labels": labels, "stopped_by_time_cap": truncated,
        "known_finding_hits": known_seen.iter().map(|(k,v)| (k.clone(), v.0)).collect::<BTreeMap<_,_>>()});
    if let Some(x) = extra {
        for (k, v) in x.as_object().unwrap() {
            cov[k] = v.clone();
        }
    }
    let ev = serde_json::json!({"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(), "violations": if violation.is_some() {1} else {0}});
    let ed = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&ed);
    let file = std::env::var("MCHECK_EVIDENCE").map(PathBuf::from).unwrap_or(ed.join(format!("{}.json", prop.id)));
    fs::write(file, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases, {} non-trivial distinct, {:.1} s{}", prop.id, tier, executed, hashes.len(), start.elapsed().as_secs_f64(), if truncated { " (time cap)" } else { "" });
    code
}

pub fn main(props: Vec<Prop>) -> i32 {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64;
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            match find(&a[2]) {
                Some(p) => {
                    // the evidence of a run of another build of the harness
                    let extra = std::env::var("MCHECK_EXTRA").ok().and_then(|f| fs::read_to_string(f).ok()).and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
                    run_prop(p, &tier, seed, extra.map(|x| serde_json::json!({"second_build": x["coverage"]})))
                }
                None => {
                    eprintln!("unknown property {}", a[2]);
                    2
                }
            }
        }
        Some("worker") => {
            let p = find(&a[2]).unwrap();
            let w = Worker { prop: p, tier: &a[3], seed: a[4].parse().unwrap() };
            worker_main(&w, a[5].parse().unwrap(), a[6].parse().unwrap(), Path::new(&a[7]))
        }
        Some("case") => {
            let p = find(&a[2]).unwrap();
            let w = Worker { prop: p, tier: &a[4], seed: a[5].parse().unwrap() };
            let pi = p.parts.iter().position(|x| x.name == a[3]).unwrap();
            let src = if a[7] == "tape" {
                Src::replay(fs::read(&a[8]).unwrap().chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect())
            } else {
                w.src(pi, a[8].parse().unwrap())
            };
            let mut src = src.with_journal(fs::File::create(&a[6]).unwrap());
            watchdog();
            let mut ctx = Ctx::default();
            match run_case(p.parts[pi].f, &mut src, &mut ctx) {
                Outcome::Pass => 0,
                Outcome::Fail(f) => {
                    eprintln!("{} | {}", f.sig, f.msg);
                    1
                }
                Outcome::HarnessError(e) => {
                    eprintln!("{e}");
                    3
                }
            }
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&fs::read_to_string(&a[2]).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap()).expect("property");
            let part = p.parts.iter().find(|x| x.name == v["part"].as_str().unwrap()).expect("part");
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let mut src = Src::replay(tape);
            let mut ctx = Ctx { verbose: true, ..Ctx::default() };
            match run_case(part.f, &mut src, &mut ctx) {
                Outcome::Pass => {
                    println!("replay: property holds on this case");
                    0
                }
                Outcome::Fail(f) => {
                    println!("VIOLATION property={} replay={}", p.id, a[2]);
                    println!("  {} | {}", f.sig, f.msg);
                    1
                }
                Outcome::HarnessError(e) => {
                    println!("ERROR {e}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: mcheck list | run <id> [tier] | replay <file>");
            2
        }
    }
}
