//! A small property-based testing engine.  Every random choice of a case is
//! drawn from a `Src`, which records it, so that a failing case is shrunk and
//! replayed as its sequence of choices (smaller choices mean simpler cases).
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::guide;
use serde_json::{json, Value};

// ---------------------------------------------------------------- choices

#[derive(Clone)]
enum Mode {
    Random([u64; 4]),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pub log: Vec<u64>,
    /// The number of this case within its sub-check, for enumerations.
    pub index: u64,
    echo: Option<std::fs::File>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(c.len() as u64);
    }
    h
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Src {
        let mut s = [0u64; 4];
        let mut z = seed;
        for x in &mut s {
            z = mix(z);
            *x = z;
        }
        Src {
            mode: Mode::Random(s),
            log: Vec::new(),
            index,
            echo: None,
        }
    }

    pub fn replay(choices: Vec<u64>, index: u64) -> Src {
        Src {
            mode: Mode::Replay(choices),
            log: Vec::new(),
            index,
            echo: None,
        }
    }

    /// A number below n.  0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(s) => {
                // xoshiro256**
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                (((r as u128) * (n as u128)) >> 64) as u64
            }
            Mode::Replay(c) => {
                c.get(self.log.len()).copied().unwrap_or(0) % n
            }
        };
        self.log.push(v);
        if let Some(f) = &mut self.echo {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// A number from lo to hi inclusive; lo is the simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }

    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    /// An index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(u64::from(total)) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
}

// ------------------------------------------------------------------ cases

pub type CaseResult = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub hash: u64,
    pub sample: String,
    pub labels: Vec<&'static str>,
    /// Filled in when the case should be described (failures and samples).
    pub inputs: Vec<(String, String)>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }

    /// Declares the input of this case and whether it is non-trivial.
    pub fn case(&mut self, input: &str, nontrivial: bool) {
        self.hash = mix(self.hash ^ hash_bytes(input.as_bytes()));
        self.nontrivial = nontrivial;
        if self.sample.is_empty() {
            self.sample = clip(input, 600);
        }
    }

    /// Records an input for the description of a failure.
    pub fn input(&mut self, name: &str, text: &str) {
        self.inputs.push((name.to_owned(), clip(text, 20_000)));
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}…[{} bytes in all]", &s[..i], s.len())
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> CaseResult,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// Whether coverage guides the search.
    pub guided: bool,
    /// Known findings: (key, what fails, a run that is Err while it fails).
    pub known: Vec<(&'static str, &'static str, fn() -> CaseResult)>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> =
        const { std::cell::RefCell::new(String::new()) };
}

/// Runs code under test, turning a panic into an error.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(format!("{what} panicked: {m}"))
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
}

// ---------------------------------------------------------------- workers

const STACK: usize = 512 << 20;
const CPU_LIMIT_S: u64 = 20;

static CASE_START_CPU_MS: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_ms() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub const EXIT_HANG: i32 = 98;
pub const EXIT_HARNESS: i32 = 97;

/// Ends the process when one case has used far more CPU time than any case
/// needs (cases take milliseconds).
fn start_watchdog(limit_s: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let start = CASE_START_CPU_MS.load(Ordering::Relaxed);
        if start != u64::MAX && cpu_ms().saturating_sub(start) > limit_s * 1000
        {
            std::process::exit(EXIT_HANG);
        }
    });
}

fn limit_memory() {
    unsafe {
        // Only the soft limit: child processes may lift it.
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        l.rlim_cur = l.rlim_max.min(3 << 30);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

pub fn on_big_stack<T: Send + 'static>(
    f: impl FnOnce() -> T + Send + 'static,
) -> T {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| std::process::exit(EXIT_HARNESS))
}

enum Ran {
    Pass,
    Fail(String),
}

/// Runs one case.  A panic outside of `guard` is an error of the harness.
fn run_case(sub: &Sub, src: &mut Src, ctx: &mut Ctx) -> Ran {
    CASE_START_CPU_MS.store(cpu_ms(), Ordering::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        (sub.run)(src, ctx)
    }));
    CASE_START_CPU_MS.store(u64::MAX, Ordering::Relaxed);
    match r {
        Ok(Ok(())) => Ran::Pass,
        Ok(Err(m)) => Ran::Fail(m),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            eprintln!("harness error in {}: {m}", sub.name);
            eprintln!("case {} inputs {:?}", src.index, ctx.inputs);
            std::process::exit(EXIT_HARNESS);
        }
    }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, index: u64) -> u64 {
    let k = hash_bytes(prop.as_bytes()) ^ hash_bytes(sub.as_bytes()).rotate_left(17);
    mix(mix(seed ^ k).wrapping_add(index.wrapping_mul(0x2545_f491_4f6c_dd1d)))
}

fn count(sub: &Sub, tier: &str) -> u64 {
    let base = if tier == "thorough" {
        sub.thorough
    } else {
        sub.quick
    };
    // For trying things out.
    match std::env::var("WSVERIF_SCALE") {
        Ok(s) => ((base as f64) * s.parse::<f64>().unwrap()) as u64,
        Err(_) => base,
    }
}

pub struct WorkerArgs {
    pub tier: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub dir: PathBuf,
}

pub fn worker(prop: Prop, a: WorkerArgs) -> i32 {
    limit_memory();
    start_watchdog(CPU_LIMIT_S);
    on_big_stack(move || worker_main(&prop, &a))
}

fn worker_main(prop: &Prop, a: &WorkerArgs) -> i32 {
    use std::os::unix::fs::FileExt;
    let prog = std::fs::File::create(a.dir.join(format!("w{}.prog", a.shard)))
        .expect("progress file");
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals: BTreeMap<&str, (u64, u64, u64)> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut features = 0;
    for (si, sub) in prop.subs.iter().enumerate() {
        let n = count(sub, &a.tier);
        let mut sampled = 0;
        let mut guide = guide::Guide::new(case_seed(a.seed, prop.id, sub.name, !a.shard));
        // First random cases (or an enumeration), then variations of those
        // that did something new, in turn with further random ones.
        let mut random = a.shard;
        let mut varied = 0;
        // As many cases as half of the random ones are variations.
        let most = n / 2;
        loop {
            let vary = prop.guided
                && guide.useful()
                && (random >= n || random > n / 8 && varied * a.shards < random / 2);
            if vary && varied * a.shards >= most || !vary && random >= n {
                break;
            }
            let (mut src, index) = if vary {
                varied += 1;
                let (choices, index) = guide.next();
                let mut mark = vec![si as u64, index, choices.len() as u64];
                mark.extend(&choices);
                let bytes: Vec<u8> =
                    mark.iter().flat_map(|x| x.to_le_bytes()).collect();
                let _ = prog.write_all_at(&bytes, 0);
                (Src::replay(choices, index), index)
            } else {
                let index = random;
                random += a.shards;
                let mut mark = [0xffu8; 24];
                mark[..8].copy_from_slice(&(si as u64).to_le_bytes());
                mark[8..16].copy_from_slice(&index.to_le_bytes());
                let _ = prog.write_all_at(&mark, 0);
                let seed = case_seed(a.seed, prop.id, sub.name, index);
                (Src::random(seed, index), index)
            };
            let mut ctx = Ctx::default();
            if prop.guided {
                crate::cov::reset();
            }
            let r = run_case(sub, &mut src, &mut ctx);
            if prop.guided {
                guide.learn(&src.log, index);
            }
            let e = evals.entry(sub.name).or_default();
            e.0 += 1;
            e.2 += u64::from(vary);
            for l in &ctx.labels {
                *labels.entry(format!("{}: {l}", sub.name)).or_default() += 1;
            }
            if ctx.nontrivial {
                e.1 += 1;
                hashes.insert(ctx.hash);
                if sampled < 2 && a.shard == 0 && (vary || index % 3 == 0) {
                    sampled += 1;
                    samples.push(
                        json!({"check": sub.name, "case": index, "input": ctx.sample}),
                    );
                }
            }
            if let Ran::Fail(m) = r {
                let file = a.dir.join(format!("w{}.fail.json", a.shard));
                write_failure(&file, prop, sub, a.seed, index, &src.log, &m, &ctx);
                shrink(prop, sub, a.seed, index, src.log, &file);
                return 1;
            }
        }
        features += guide.features();
    }
    let mut hb: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(a.dir.join(format!("w{}.hash", a.shard)), hb).expect("hash");
    let per: Vec<Value> = evals
        .iter()
        .map(|(k, v)| json!({"check": k, "evaluations": v.0, "nontrivial": v.1, "guided": v.2}))
        .collect();
    let out = json!({"per": per, "labels": labels, "samples": samples, "features": features});
    std::fs::write(
        a.dir.join(format!("w{}.json", a.shard)),
        out.to_string(),
    )
    .expect("result");
    0
}

#[allow(clippy::too_many_arguments)]
fn write_failure(
    file: &Path,
    prop: &Prop,
    sub: &Sub,
    seed: u64,
    index: u64,
    choices: &[u64],
    message: &str,
    ctx: &Ctx,
) {
    let inputs: Vec<Value> = ctx
        .inputs
        .iter()
        .map(|(n, t)| json!({"name": n, "text": t}))
        .collect();
    let v = json!({
        "property": prop.id,
        "check": sub.name,
        "seed": seed,
        "case": index,
        "message": clip(message, 8000),
        "inputs": inputs,
        "choices": choices,
    });
    let tmp = file.with_extension("tmp");
    std::fs::write(&tmp, serde_json::to_string_pretty(&v).unwrap())
        .expect("failure file");
    std::fs::rename(&tmp, file).expect("failure file");
}

/// Candidate simplifications of a choice sequence, tried in passes until none
/// helps.  `fails` runs a candidate, and returns the choices it really made if
/// it still fails.
fn shrink_choices(
    mut best: Vec<u64>,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    mut more: impl FnMut() -> bool,
) -> Vec<u64> {
    let less = |a: &[u64], b: &[u64]| {
        a.len() < b.len() || a.len() == b.len() && a < b
    };
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && more() {
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                c.drain(lo..i.min(c.len()));
                match fails(&c) {
                    Some(l) if less(&l, &best) => {
                        best = l;
                        i = lo.min(best.len());
                    }
                    _ => i = lo,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks.
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && more() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].fill(0);
                    if let Some(l) = fails(&c) {
                        if less(&l, &best) {
                            best = l;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() && more() {
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi && more() && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match fails(&c) {
                    Some(l) if less(&l, &best) => {
                        best = l;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before || !more() {
            return best;
        }
    }
}

fn shrink(
    prop: &Prop,
    sub: &Sub,
    seed: u64,
    index: u64,
    choices: Vec<u64>,
    file: &Path,
) {
    let start = Instant::now();
    let runs = std::cell::Cell::new(0u32);
    shrink_choices(
        choices,
        |c| {
            runs.set(runs.get() + 1);
            let mut src = Src::replay(c.to_vec(), index);
            let mut ctx = Ctx::default();
            match run_case(sub, &mut src, &mut ctx) {
                Ran::Pass => None,
                Ran::Fail(m) => {
                    // The file always describes the best so far: every
                    // accepted candidate is no larger than the one before.
                    let log = src.log.clone();
                    if log.len() <= c.len() {
                        let old: Value = serde_json::from_slice(
                            &std::fs::read(file).unwrap_or_default(),
                        )
                        .unwrap_or(Value::Null);
                        let n = old["choices"]
                            .as_array()
                            .map_or(usize::MAX, |a| a.len());
                        let v: Vec<u64> = old["choices"]
                            .as_array()
                            .map(|a| {
                                a.iter().filter_map(Value::as_u64).collect()
                            })
                            .unwrap_or_default();
                        if log.len() < n || log.len() == n && log < v {
                            write_failure(
                                file, prop, sub, seed, index, &log, &m, &ctx,
                            );
                        }
                    }
                    Some(log)
                }
            }
        },
        || runs.get() < 4000 && start.elapsed() < Duration::from_secs(25),
    );
}

// ------------------------------------------------- single runs in a process

/// Runs one case in this process, by its choices if given.  Exits 0 if it
/// passes and 1 (message on stdout) if it fails.
pub fn exec(
    prop: Prop,
    sub: &str,
    index: u64,
    seed: u64,
    choices: Option<Vec<u64>>,
    echo: Option<PathBuf>,
    limit_s: u64,
) -> i32 {
    limit_memory();
    start_watchdog(limit_s);
    let sub = sub.to_owned();
    on_big_stack(move || {
        let Some(s) = prop.subs.iter().find(|s| s.name == sub) else {
            eprintln!("no check {sub}");
            return 2;
        };
        let mut src = match choices {
            Some(c) => Src::replay(c, index),
            None => Src::random(case_seed(seed, prop.id, s.name, index), index),
        };
        src.echo = echo.map(|p| std::fs::File::create(p).expect("echo file"));
        let mut ctx = Ctx::default();
        match run_case(s, &mut src, &mut ctx) {
            Ran::Pass => 0,
            Ran::Fail(m) => {
                for (n, t) in &ctx.inputs {
                    println!("{n}: {t:?}");
                }
                println!("{m}");
                1
            }
        }
    })
}

enum Died {
    No(i32),
    Yes(String),
}

fn exec_child(
    prop: &str,
    sub: &str,
    index: u64,
    seed: u64,
    choices: Option<&Path>,
    echo: Option<&Path>,
    limit_s: u64,
) -> Died {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.args(["exec", prop, sub, &index.to_string(), &seed.to_string()]);
    c.arg(choices.map_or("-".into(), |p| p.to_string_lossy().into_owned()));
    c.arg(echo.map_or("-".into(), |p| p.to_string_lossy().into_owned()));
    c.arg(limit_s.to_string());
    c.stdout(Stdio::null()).stderr(Stdio::null());
    let st = c.status().expect("exec child");
    match (st.code(), st.signal()) {
        (Some(EXIT_HANG), _) => Died::Yes(format!(
            "did not finish within {limit_s} s of CPU time (cases take milliseconds)"
        )),
        (Some(c), _) => Died::No(c),
        (None, Some(s)) => Died::Yes(format!(
            "ended the process with signal {s} ({})",
            match s {
                libc::SIGABRT => "abort: stack or memory exhausted, or a fatal error",
                libc::SIGSEGV => "invalid memory access",
                _ => "killed",
            }
        )),
        _ => Died::Yes("ended the process".into()),
    }
}

fn read_u64s(p: &Path) -> Vec<u64> {
    std::fs::read(p)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

pub fn write_u64s(p: &Path, v: &[u64]) {
    let mut b = Vec::new();
    for x in v {
        b.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(p, b).expect("choices file");
}

/// A worker died on a case: reproduce it in a fresh process, shrink it there,
/// and describe it.  None if it does not reproduce.
fn confirm_death(
    prop: &Prop,
    si: usize,
    index: u64,
    seed: u64,
    varied: Option<Vec<u64>>,
    dir: &Path,
) -> Option<Value> {
    let sub = &prop.subs[si];
    let echo = dir.join("echo");
    let given = varied.map(|c| {
        let f = dir.join("varied");
        write_u64s(&f, &c);
        f
    });
    let first = exec_child(
        prop.id,
        sub.name,
        index,
        seed,
        given.as_deref(),
        Some(&echo),
        20,
    );
    let Died::Yes(how) = first else {
        if let Died::No(1) = first {
            // Fails by itself in an ordinary way.
            return Some(json!({
                "property": prop.id, "check": sub.name, "seed": seed,
                "case": index, "choices": read_u64s(&echo),
                "message": "fails in a process of its own",
            }));
        }
        return None;
    };
    let mut best = read_u64s(&echo);
    let cf = dir.join("choices");
    let start = Instant::now();
    let n = std::cell::Cell::new(0);
    let hang = how.contains("CPU");
    let limit = if hang { 4 } else { 20 };
    best = shrink_choices(
        best,
        |c| {
            n.set(n.get() + 1);
            write_u64s(&cf, c);
            let _ = std::fs::remove_file(&echo);
            match exec_child(
                prop.id,
                sub.name,
                index,
                seed,
                Some(&cf),
                Some(&echo),
                limit,
            ) {
                Died::Yes(_) => Some(read_u64s(&echo)),
                Died::No(_) => None,
            }
        },
        || n.get() < 400 && start.elapsed() < Duration::from_secs(60),
    );
    write_u64s(&cf, &best);
    let mut how = how;
    let choices = match exec_child(
        prop.id, sub.name, index, seed, Some(&cf), None, 20,
    ) {
        Died::Yes(h) => {
            how = h;
            Some(best)
        }
        Died::No(_) => None,
    };
    Some(json!({
        "property": prop.id, "check": sub.name, "seed": seed, "case": index,
        "choices": choices,
        "message": format!("the code under test {how}"),
    }))
}

// ----------------------------------------------------------------- parent

pub fn check(prop: Prop, tier: &str, seed: u64, root: &Path) -> i32 {
    let start = Instant::now();
    let dir = root.join(format!("evidence/.run-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("run dir");
    // Scratch files of ended workers go with it.
    std::env::set_var("TMPDIR", &dir);
    let code = check_in(&prop, tier, seed, root, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(
    prop: &Prop,
    tier: &str,
    seed: u64,
    root: &Path,
    dir: &Path,
    start: Instant,
) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    // Known findings, each in a process of its own.
    let listed = std::fs::read_to_string(root.join("known_findings.json"))
        .ok()
        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
        .unwrap_or(Value::Null);
    let mut known_seen = Vec::new();
    for (i, (key, what, _)) in prop.known.iter().enumerate() {
        let is_listed = listed["known"].as_array().is_some_and(|a| {
            a.iter().any(|e| e["property"] == prop.id && e["key"] == *key)
        });
        let st = Command::new(&exe)
            .args(["known", prop.id, &i.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("known");
        let fails = st.code() != Some(0);
        if fails && is_listed {
            println!("KNOWN-FINDING: property={} {what}", prop.id);
            known_seen.push(json!(what));
        } else if fails {
            let path = replay_path(root, prop.id);
            let v = json!({"property": prop.id, "known": i, "message": what});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap())
                .expect("replay");
            println!("{what}");
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            return 1;
        }
    }

    let shards = std::env::var("WSVERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism().map_or(4, |n| n.get() as u64)
        })
        .min(16);
    let mut kids: Vec<Option<std::process::Child>> = (0..shards)
        .map(|k| {
            Some(
                Command::new(&exe)
                    .args(["worker", prop.id, tier, &seed.to_string()])
                    .args([&k.to_string(), &shards.to_string()])
                    .arg(dir)
                    .spawn()
                    .expect("worker"),
            )
        })
        .collect();
    let mut failed: Option<u64> = None;
    let mut dead: Option<(u64, String)> = None;
    let mut harness_error = false;
    let mut left = shards;
    while left > 0 && failed.is_none() && dead.is_none() && !harness_error {
        std::thread::sleep(Duration::from_millis(20));
        for (k, slot) in kids.iter_mut().enumerate() {
            let Some(kid) = slot else { continue };
            if let Some(st) = kid.try_wait().expect("wait") {
                *slot = None;
                left -= 1;
                match st.code() {
                    Some(0) => (),
                    Some(1) => failed = Some(k as u64),
                    Some(EXIT_HARNESS) => harness_error = true,
                    _ => {
                        if dir.join(format!("w{k}.fail.json")).exists() {
                            failed = Some(k as u64)
                        } else {
                            dead = Some((k as u64, format!("{st}")))
                        }
                    }
                }
            }
        }
    }
    for kid in kids.iter_mut().flatten() {
        let _ = kid.kill();
        let _ = kid.wait();
    }
    if harness_error {
        eprintln!("error of the check itself; nothing decided");
        return 2;
    }
    let mut violation: Option<Value> = None;
    if let Some(k) = failed {
        let t = std::fs::read(dir.join(format!("w{k}.fail.json")))
            .expect("failure file");
        violation = Some(serde_json::from_slice(&t).expect("failure json"));
    } else if let Some((k, st)) = dead {
        let mark = std::fs::read(dir.join(format!("w{k}.prog"))).unwrap_or_default();
        if mark.len() < 16 {
            eprintln!("worker {k} ended ({st}) before its first case");
            return 2;
        }
        let si = u64::from_le_bytes(mark[..8].try_into().unwrap()) as usize;
        let index = u64::from_le_bytes(mark[8..16].try_into().unwrap());
        let words: Vec<u64> = mark[16..]
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .collect();
        let varied = match words.first() {
            Some(&n) if n != u64::MAX && words.len() > n as usize => {
                Some(words[1..=n as usize].to_vec())
            }
            _ => None,
        };
        violation = confirm_death(prop, si, index, seed, varied, dir);
        if violation.is_none() {
            eprintln!("worker {k} ended ({st}) at {} case {index}, but the case passes by itself; nothing decided", prop.subs[si].name);
            return 2;
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let mut per: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
    let mut features = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    for k in 0..shards {
        let Ok(t) = std::fs::read(dir.join(format!("w{k}.json"))) else {
            continue;
        };
        let v: Value = serde_json::from_slice(&t).expect("worker json");
        for p in v["per"].as_array().unwrap() {
            let e = per
                .entry(p["check"].as_str().unwrap().to_owned())
                .or_default();
            e.0 += p["evaluations"].as_u64().unwrap();
            e.1 += p["nontrivial"].as_u64().unwrap();
            e.2 += p["guided"].as_u64().unwrap();
        }
        features = features.max(v["features"].as_u64().unwrap_or(0));
        for (l, n) in v["labels"].as_object().unwrap() {
            *labels.entry(l.clone()).or_default() += n.as_u64().unwrap();
        }
        samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        distinct.extend(read_u64s(&dir.join(format!("w{k}.hash"))));
    }
    let evaluations: u64 = per.values().map(|p| p.0).sum();
    if samples.is_empty() {
        samples.push(match &violation {
            Some(v) => v.clone(),
            None => json!("no sample"),
        });
    }
    let checks: Vec<Value> = per
        .iter()
        .map(|(k, v)| json!({"check": k, "cases": v.0, "nontrivial_cases": v.1, "coverage_guided_cases": v.2}))
        .collect();
    let ev = json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "per_check": checks,
            "classes": labels,
            "coverage_features_of_one_worker": features,
            "known_findings_reproduced": known_seen,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": u64::from(violation.is_some()),
    });
    let evfile = root.join(format!("evidence/{}.json", prop.id));
    std::fs::write(&evfile, serde_json::to_string_pretty(&ev).unwrap())
        .expect("evidence");

    match violation {
        None => {
            println!(
                "{}: {evaluations} cases, {} distinct non-trivial, {wall:.1} s",
                prop.id,
                distinct.len()
            );
            0
        }
        Some(v) => {
            let path = replay_path(root, prop.id);
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap())
                .expect("replay");
            println!("check {}: {}", v["check"], v["message"].as_str().unwrap_or(""));
            if let Some(a) = v["inputs"].as_array() {
                for i in a {
                    println!("  {}: {}", i["name"].as_str().unwrap_or(""), clip(&i["text"].to_string(), 1500));
                }
            }
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            1
        }
    }
}

fn replay_path(root: &Path, id: &str) -> PathBuf {
    root.join(format!("evidence/replay-{id}.json"))
}

/// Runs a replay file again.  Exit code 1 if it still fails.
pub fn replay(find: impl Fn(&str) -> Option<Prop>, file: &Path) -> i32 {
    let v: Value =
        serde_json::from_slice(&std::fs::read(file).expect("replay file"))
            .expect("replay json");
    let id = v["property"].as_str().expect("property").to_owned();
    let Some(prop) = find(&id) else {
        eprintln!("no property {id}");
        return 2;
    };
    if let Some(i) = v["known"].as_u64() {
        return match Command::new(std::env::current_exe().unwrap())
            .args(["known", &id, &i.to_string()])
            .status()
            .unwrap()
            .code()
        {
            Some(0) => 0,
            _ => 1,
        };
    }
    let sub = v["check"].as_str().expect("check").to_owned();
    let index = v["case"].as_u64().unwrap_or(0);
    let seed = v["seed"].as_u64().unwrap_or(1);
    let choices: Option<Vec<u64>> = v["choices"]
        .as_array()
        .map(|a| a.iter().filter_map(Value::as_u64).collect());
    let r = exec(prop, &sub, index, seed, choices, None, 20);
    println!("{}", if r == 0 { "passes" } else { "fails" });
    r
}

pub fn known(prop: Prop, i: usize) -> i32 {
    limit_memory();
    start_watchdog(CPU_LIMIT_S);
    CASE_START_CPU_MS.store(cpu_ms(), Ordering::Relaxed);
    // On a main-sized stack, as a user's program has it.
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        match (prop.known[i].2)() {
            Ok(()) => 0,
            Err(m) => {
                println!("{m}");
                1
            }
        }
    });
    t.expect("spawn").join().unwrap_or(1)
}
