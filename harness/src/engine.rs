//! Workload engine: deterministic case generation, worker processes, verdicts and evidence.
//!
//! A monitor generates numbered cases from (VERIF_SEED, property, index) and evaluates each against
//! the real library.  Cases run in child processes so that a stack overflow, an abort or an endless
//! loop is attributed to the one case that caused it instead of ending the check.

use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn from_env() -> Tier {
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// xoshiro256** seeded with splitmix64.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// One byte, the ends of the range more often than the rest.
    pub fn u8(&mut self) -> u8 {
        let r = self.u64();
        match r >> 40 & 0x7F {
            0..=2 => 0x00,
            3..=5 => 0xFF,
            6 => 0x01,
            7 => 0x7F,
            8 => 0x80,
            9 => 0xFE,
            _ => (r >> 32) as u8,
        }
    }
    fn plain(&mut self) -> u8 {
        (self.u64() >> 32) as u8
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.usize(items.len());
        &items[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.plain()).collect()
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        for b in &mut a {
            *b = self.plain();
        }
        a
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &b in data {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub kind: String,
    #[serde(default, with = "hexser")]
    pub bytes: Vec<u8>,
    #[serde(default, with = "hexser")]
    pub aux: Vec<u8>,
    #[serde(default)]
    pub text: String,
    #[serde(default)]
    pub key: Option<[u8; 16]>,
    #[serde(default)]
    pub nums: Vec<i64>,
    /// Build of the monitor the case was seen in, empty for the usual one.
    #[serde(default)]
    pub variant: String,
}

mod hexser {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(d: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&super::hex(d))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let t = String::deserialize(d)?;
        super::unhex(&t).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

pub fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2);
    for b in d {
        s.push_str(&format!("{b:02X}"));
    }
    s
}

pub fn unhex(t: &str) -> Option<Vec<u8>> {
    let t: Vec<u8> = t.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
    if t.len() % 2 != 0 {
        return None;
    }
    t.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok())
        .collect()
}

impl Case {
    pub fn new(kind: &str) -> Case {
        Case {
            kind: kind.to_string(),
            ..Case::default()
        }
    }
    pub fn bytes(kind: &str, b: Vec<u8>) -> Case {
        Case {
            kind: kind.to_string(),
            bytes: b,
            ..Case::default()
        }
    }
    pub fn with_key(mut self, k: Option<[u8; 16]>) -> Case {
        self.key = k;
        self
    }
}

/// A refutation of the property by one case.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    /// Stable identification of the failure (what and where), used for known findings.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        let mut msg: String = msg.into();
        if msg.len() > 6000 {
            let mut cut = 6000;
            while !msg.is_char_boundary(cut) {
                cut -= 1;
            }
            msg.truncate(cut);
        }
        Fail {
            sig: sig.into(),
            msg,
        }
    }
}

pub type Verdict = Result<(), Fail>;

/// What the monitors saw.
#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub features: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Obs {
    /// One oracle comparison was made.
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evaluations += n;
    }
    /// A non-trivial situation was observed; equal descriptions count once.
    pub fn feature(&mut self, desc: &str) {
        if self.features.len() < 2_000_000 {
            self.features.insert(fnv(desc.as_bytes()));
        }
    }
    pub fn feature_hash(&mut self, h: u64) {
        if self.features.len() < 2_000_000 {
            self.features.insert(h);
        }
    }
    pub fn count(&mut self, name: &str) {
        *self.counters.entry(name.to_string()).or_insert(0) += 1;
    }
    /// Keeps the largest value seen.
    #[allow(dead_code)]
    pub fn max(&mut self, name: &str, v: u64) {
        match self.maxima.get_mut(name) {
            Some(m) => *m = v.max(*m),
            None => {
                self.maxima.insert(name.to_string(), v);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s.chars().take(400).collect());
        }
    }
}

pub trait Monitor: Sync {
    fn id(&self) -> &'static str;
    /// What makes an observation distinct and non-trivial.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn cases(&self, tier: Tier) -> u64;
    fn min_distinct(&self) -> u64 {
        10
    }
    /// Whether the case space of this tier is enumerated completely.
    fn exhaustive(&self, _tier: Tier) -> bool {
        false
    }
    fn gen(&self, idx: u64, rng: &mut Rng, tier: Tier) -> Case;
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict;
    /// Build of the monitor the cases of a worker run in.
    fn variant(&self, _shard: u64) -> &'static str {
        ""
    }
    fn workers(&self) -> u64 {
        std::env::var("MBUSMON_WORKERS")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(8)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.strip_prefix("/repo/").unwrap_or(f);
                (f.to_string(), l.line())
            })
            .unwrap_or_default();
        let payload = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = Some((format!("{}:{}", loc.0, loc.1), payload));
        });
    }));
}

/// Runs `f`, turning a panic into a failure that names where it came from.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "panic".into()));
            Err(Fail::new(
                format!("panic:{what}:{loc}"),
                format!("{what} panicked at {loc}: {msg}"),
            ))
        }
    }
}

pub fn evaluate(m: &dyn Monitor, case: &Case, obs: &mut Obs) -> Verdict {
    match guard("evaluation", || m.eval(case, obs)) {
        Ok(v) => v,
        Err(f) => {
            let own = ["src/props/", "/verif/", "src/model", "src/gen.rs", "src/engine.rs", "src/corpus.rs", "src/main.rs"];
            if own.iter().any(|o| f.sig.contains(o)) {
                // A bug of the harness itself is never reported as a violation.
                eprintln!("harness error: {}", f.msg);
                std::process::exit(3);
            }
            Err(f)
        }
    }
}

pub fn case_rng(seed: u64, prop: &str, idx: u64) -> Rng {
    let mut x = seed ^ fnv(prop.as_bytes()).rotate_left(17);
    let a = splitmix(&mut x);
    Rng::new(a ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

#[derive(Serialize, Deserialize, Default)]
struct ShardReport {
    evaluations: u64,
    cases: u64,
    complete: bool,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<String>,
    fails: Vec<(u64, Fail, Case)>,
}

const MAX_FAILS: usize = 12;

/// The case a worker takes up next: one place further in the next group, so that no worker gets all of the
/// costly ones.
fn next(idx: u64, shards: u64) -> u64 {
    if idx % shards == shards - 1 {
        idx + 1
    } else {
        idx + shards + 1
    }
}

pub fn run_worker(m: &dyn Monitor, seed: u64, tier: Tier, shard: u64, shards: u64, start: u64, dir: &Path, budget_s: u64) {
    let total = m.cases(tier);
    let t0 = Instant::now();
    let mut progress = std::fs::OpenOptions::new()
        .create(true)
        .truncate(false)
        .write(true)
        .open(dir.join(format!("progress-{shard}")))
        .expect("progress file");
    let mut obs = Obs::default();
    let mut rep = ShardReport {
        complete: true,
        ..Default::default()
    };
    let mut seen_sigs: BTreeMap<String, u32> = BTreeMap::new();
    let mut idx = start;
    while idx < total {
        if rep.cases % 16 == 0 && t0.elapsed() > Duration::from_secs(budget_s) {
            rep.complete = false;
            break;
        }
        progress.seek(SeekFrom::Start(0)).ok();
        progress.write_all(&idx.to_le_bytes()).ok();
        let mut rng = case_rng(seed, m.id(), idx);
        let case = m.gen(idx, &mut rng, tier);
        rep.cases += 1;
        if let Err(f) = evaluate(m, &case, &mut obs) {
            let n = seen_sigs.entry(f.sig.clone()).or_insert(0);
            *n += 1;
            if *n <= 2 {
                rep.fails.push((idx, f, Case { variant: m.variant(shard).to_string(), ..case }));
            }
            if seen_sigs.len() >= MAX_FAILS {
                rep.complete = false;
                break;
            }
        }
        idx = next(idx, shards);
    }
    rep.evaluations = obs.evaluations;
    rep.counters = obs.counters;
    rep.maxima = obs.maxima;
    rep.samples = obs.samples;
    let mut buf = Vec::with_capacity(obs.features.len() * 8);
    for f in &obs.features {
        buf.extend_from_slice(&f.to_le_bytes());
    }
    std::fs::write(dir.join(format!("features-{shard}-{start}")), buf).expect("features");
    std::fs::write(
        dir.join(format!("report-{shard}-{start}")),
        serde_json::to_vec(&rep).expect("report json"),
    )
    .expect("report");
}

fn set_limits(cmd: &mut Command, cpu_s: u64, variant: &str) {
    // the address sanitizer reserves terabytes of address space
    let sanitized = variant == "asan";
    if sanitized {
        cmd.env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:symbolize=0");
    }
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(move || {
            let r = libc::rlimit {
                rlim_cur: 6 << 30,
                rlim_max: 6 << 30,
            };
            if !sanitized {
                libc::setrlimit(libc::RLIMIT_AS, &r);
            }
            let c = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            if cpu_s > 0 {
                let r = libc::rlimit {
                    rlim_cur: cpu_s,
                    rlim_max: cpu_s + 5,
                };
                libc::setrlimit(libc::RLIMIT_CPU, &r);
            }
            Ok(())
        });
    }
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let mut s = String::new();
    std::fs::File::open(format!("/proc/{pid}/stat"))
        .ok()?
        .read_to_string(&mut s)
        .ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn read_progress(dir: &Path, shard: u64) -> Option<u64> {
    let b = std::fs::read(dir.join(format!("progress-{shard}"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub signature: String,
    pub message: String,
    pub case: Case,
}

fn replay_path(r: &Replay) -> PathBuf {
    let dir = PathBuf::from("/verif/replays");
    std::fs::create_dir_all(&dir).ok();
    let h = fnv(format!("{}{}{}", r.property, r.signature, r.index).as_bytes());
    dir.join(format!("{}-{:08x}.json", r.property, h as u32))
}

#[derive(Deserialize)]
struct Known {
    property: String,
    signature: String,
    what: String,
    #[serde(default)]
    status: String,
}

fn known_findings() -> Vec<Known> {
    let p = "/verif/known_findings.json";
    match std::fs::read(p) {
        Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| {
            eprintln!("cannot read {p}: {e}");
            std::process::exit(2);
        }),
        Err(_) => vec![],
    }
}

/// CPU seconds a single case may use before it counts as "gives no result".
const CASE_CPU_S: u64 = 20;

/// Runs a check as the parent process. Returns the exit code.
pub fn run_check(m: &dyn Monitor, extra: &dyn Fn(&mut Obs) -> Vec<(Fail, Case)>) -> i32 {
    let t0 = Instant::now();
    let tier = Tier::from_env();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let budget_s: u64 = tier.pick(240, 600);
    let dir = PathBuf::from(format!("/verif/work/{}-{}", m.id(), std::process::id()));
    std::fs::create_dir_all(&dir).expect("work dir");
    let exe = std::env::current_exe().expect("exe");
    let shards = m.workers().min(m.cases(tier).max(1));

    struct W {
        child: std::process::Child,
        shard: u64,
        start: u64,
        last_idx: u64,
        idx_cpu: u64,
        done: bool,
    }
    let spawn = |shard: u64, start: u64| -> W {
        let variant = m.variant(shard);
        let mut cmd = Command::new(variant_exe(variant, &exe));
        cmd.arg("worker")
            .arg(m.id())
            .arg(seed.to_string())
            .arg(tier.name())
            .arg(shard.to_string())
            .arg(shards.to_string())
            .arg(start.to_string())
            .arg(&dir)
            .arg(budget_s.saturating_sub(t0.elapsed().as_secs()).max(1).to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped());
        set_limits(&mut cmd, 0, variant);
        let child = cmd.spawn().expect("spawn worker");
        W {
            child,
            shard,
            start,
            last_idx: u64::MAX,
            idx_cpu: 0,
            done: false,
        }
    };
    let mut reports: Vec<(u64, u64)> = vec![];
    let mut fails: Vec<(u64, Fail, Case)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut ws: Vec<W> = (0..shards).map(|s| spawn(s, s)).collect();
    let tick = 100u64; // CLK_TCK
    let mut restarts = 0;
    loop {
        let mut running = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if st.success() {
                        reports.push((w.shard, w.start));
                        continue;
                    }
                    let mut err = String::new();
                    if let Some(mut e) = w.child.stderr.take() {
                        e.read_to_string(&mut err).ok();
                    }
                    let idx = read_progress(&dir, w.shard);
                    let err: String = err.chars().take(600).collect();
                    match (st.signal(), idx) {
                        (Some(sig), Some(idx)) => {
                            let mut rng = case_rng(seed, m.id(), idx);
                            let mut case = m.gen(idx, &mut rng, tier);
                            case.variant = m.variant(w.shard).to_string();
                            match confirm(&exe, m.id(), &case, &dir) {
                                Confirm::Died(s2) => fails.push((
                                    idx,
                                    Fail::new(
                                        format!("died:signal{s2}"),
                                        format!("process died with signal {s2} (first {sig}) while evaluating the case; {err}"),
                                    ),
                                    case,
                                )),
                                Confirm::Spins => fails.push((
                                    idx,
                                    Fail::new("no-result", "evaluation used more than the CPU limit without a result"),
                                    case,
                                )),
                                Confirm::Returned => errors.push(format!(
                                    "worker {} died with signal {sig} at case {idx}, not reproduced alone; {err}",
                                    w.shard
                                )),
                            }
                            if restarts < 16 {
                                restarts += 1;
                                *w = spawn(w.shard, next(idx, shards));
                                running = true;
                            }
                        }
                        _ => errors.push(format!("worker {} ended with {st}: {err}", w.shard)),
                    }
                }
                Ok(None) => {
                    running = true;
                    if let (Some(idx), Some(cpu)) =
                        (read_progress(&dir, w.shard), cpu_ticks(w.child.id()))
                    {
                        if idx != w.last_idx {
                            w.last_idx = idx;
                            w.idx_cpu = cpu;
                        } else if cpu.saturating_sub(w.idx_cpu) > CASE_CPU_S * tick {
                            w.child.kill().ok();
                        }
                    }
                }
                Err(e) => errors.push(format!("wait: {e}")),
            }
        }
        if !running {
            break;
        }
        if t0.elapsed() > Duration::from_secs(tier.pick(600, 840)) {
            for w in ws.iter_mut() {
                w.child.kill().ok();
                w.child.wait().ok();
            }
            errors.push("wall-clock cap reached: inconclusive".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }

    let mut total = ShardReport {
        complete: true,
        ..Default::default()
    };
    let mut features: HashSet<u64> = HashSet::new();
    for (s, st) in &reports {
        match std::fs::read(dir.join(format!("report-{s}-{st}")))
            .ok()
            .and_then(|b| serde_json::from_slice::<ShardReport>(&b).ok())
        {
            Some(r) => {
                total.evaluations += r.evaluations;
                total.cases += r.cases;
                total.complete &= r.complete;
                for (k, v) in r.counters {
                    *total.counters.entry(k).or_insert(0) += v;
                }
                for (k, v) in r.maxima {
                    let m = total.maxima.entry(k).or_insert(0);
                    *m = v.max(*m);
                }
                total.samples.extend(r.samples);
                fails.extend(r.fails);
            }
            None => errors.push(format!("no report from worker {s}")),
        }
        if let Ok(b) = std::fs::read(dir.join(format!("features-{s}-{st}"))) {
            for c in b.chunks_exact(8) {
                features.insert(u64::from_le_bytes(c.try_into().expect("8")));
            }
        }
    }
    // Parent-side part of a check (other processes, thread schedules, feature builds).
    let mut pobs = Obs::default();
    for (f, c) in extra(&mut pobs) {
        if f.sig.starts_with("harness:") {
            errors.push(f.msg);
        } else {
            fails.push((u64::MAX, f, c));
        }
    }
    total.evaluations += pobs.evaluations;
    features.extend(pobs.features.iter());
    for (k, v) in pobs.counters {
        *total.counters.entry(k).or_insert(0) += v;
    }
    total.samples.splice(0..0, pobs.samples);
    total.samples.truncate(12);
    std::fs::remove_dir_all(&dir).ok();
    // what the harness itself could not do is an error, never a verdict
    fails.retain(|(_, f, _)| {
        let own = f.sig.starts_with("harness");
        if own {
            errors.push(f.msg.clone());
        }
        !own
    });

    fails.sort_by(|a, b| (a.0, &a.1.sig).cmp(&(b.0, &b.1.sig)));
    let known = known_findings();
    let mut violations: Vec<Replay> = vec![];
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    let mut sigs: BTreeMap<String, u32> = BTreeMap::new();
    for (idx, f, case) in fails {
        if let Some(k) = known
            .iter()
            .find(|k| k.property == m.id() && k.signature == f.sig && k.status != "fixed")
        {
            known_seen.insert(k.signature.clone(), k.what.clone());
            continue;
        }
        let n = sigs.entry(f.sig.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            continue;
        }
        violations.push(Replay {
            property: m.id().to_string(),
            seed,
            index: idx,
            signature: f.sig,
            message: f.msg,
            case,
        });
    }
    for (sig, what) in &known_seen {
        println!("KNOWN-FINDING: property={} {} [{}]", m.id(), what, sig);
    }
    let evidence = serde_json::json!({
        "property": m.id(),
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": features.len(),
            "rule": m.rule(),
            "samples": total.samples,
            "exhaustive": m.exhaustive(tier) && total.complete,
            "cases": total.cases,
            "workers": shards,
            "all_planned_cases_run": total.complete && errors.is_empty(),
            "counters": total.counters,
            "maxima": total.maxima,
            "known_findings_seen": known_seen.keys().collect::<Vec<_>>(),
            "inconclusive": errors,
        },
        "assumptions": m.assumptions(),
        "violations": violations.len(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    std::fs::create_dir_all("/verif/evidence").ok();
    std::fs::write(
        format!("/verif/evidence/{}.json", m.id()),
        serde_json::to_string_pretty(&evidence).expect("json"),
    )
    .expect("evidence");

    for v in &violations {
        let p = replay_path(v);
        std::fs::write(&p, serde_json::to_string_pretty(v).expect("json")).ok();
        println!("VIOLATION property={} replay={}", v.property, p.display());
        println!("  {}: {}", v.signature, first_line(&v.message));
    }
    println!(
        "{} {} seed={} cases={} evaluations={} distinct={} violations={} known={} {:.1}s",
        m.id(),
        tier.name(),
        seed,
        total.cases,
        total.evaluations,
        features.len(),
        violations.len(),
        known_seen.len(),
        t0.elapsed().as_secs_f64()
    );
    for e in &errors {
        println!("inconclusive: {e}");
    }
    if !violations.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        return 2;
    }
    if total.evaluations == 0 || (features.len() as u64) < m.min_distinct() {
        println!(
            "error: observed too little ({} evaluations, {} distinct)",
            total.evaluations,
            features.len()
        );
        return 2;
    }
    0
}

fn first_line(s: &str) -> String {
    s.replace('\n', " | ").chars().take(900).collect()
}

/// Executable of a build variant; the empty name is the running one.
pub fn variant_exe(variant: &str, own: &Path) -> PathBuf {
    match variant {
        "" => own.to_path_buf(),
        "asan" => PathBuf::from("/verif/target/asan/x86_64-unknown-linux-gnu/debug/mbusmon"),
        v => PathBuf::from(format!("/verif/target/{v}/debug/mbusmon")),
    }
}

enum Confirm {
    Died(i32),
    Spins,
    Returned,
}

fn confirm(exe: &Path, prop: &str, case: &Case, dir: &Path) -> Confirm {
    let r = Replay {
        property: prop.to_string(),
        seed: 0,
        index: 0,
        signature: String::new(),
        message: String::new(),
        case: case.clone(),
    };
    let p = dir.join("confirm.json");
    std::fs::write(&p, serde_json::to_vec(&r).expect("json")).ok();
    let mut cmd = Command::new(variant_exe(&case.variant, exe));
    cmd.arg("replay")
        .arg(&p)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    set_limits(&mut cmd, CASE_CPU_S * 2, &case.variant);
    match cmd.status() {
        Ok(st) => match st.signal() {
            Some(libc::SIGXCPU) => Confirm::Spins,
            Some(libc::SIGKILL) => Confirm::Spins,
            Some(s) => Confirm::Died(s),
            None => Confirm::Returned,
        },
        Err(_) => Confirm::Returned,
    }
}

pub fn run_replay(m: &dyn Monitor, r: &Replay) -> i32 {
    let mut obs = Obs::default();
    match evaluate(m, &r.case, &mut obs) {
        Ok(()) => {
            println!("held: property={} on the recorded case", r.property);
            0
        }
        Err(f) => {
            println!("violated: property={} {}\n{}", r.property, f.sig, f.msg);
            1
        }
    }
}
