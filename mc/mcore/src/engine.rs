//! Running a check: worker threads, panic/crash/hang capture, violations, evidence.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
const SLOTS: usize = WORKERS + 1;
const SLOT: usize = 64 * 1024;
const HANG: Duration = Duration::from_secs(20);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub root: PathBuf,
    started: Instant,
    inner: Mutex<Inner>,
    pub stop: AtomicBool,
    pub parts: Mutex<Vec<String>>,
}

#[derive(Default)]
struct Inner {
    evals: u64,
    distinct: HashSet<u64>,
    nontrivial: u64,
    transitions: u64,
    states: HashSet<u64>,
    validated: u64,
    open: u64,
    accepted: u64,
    rejected: u64,
    samples: Vec<String>,
    violations: u64,
    known: Vec<String>,
}

/// Per-worker counters, merged at the end
pub struct Cx<'r> {
    pub run: &'r Run,
    slot: usize,
    evals: u64,
    distinct: HashSet<u64>,
    pub transitions: u64,
    states: HashSet<u64>,
    pub validated: u64,
    pub open: u64,
    pub accepted: u64,
    pub rejected: u64,
    samples: Vec<String>,
}

struct Slots {
    map: *mut u8,
    since: [AtomicU64; SLOTS],
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

static SLOTS_MAP: OnceLock<Slots> = OnceLock::new();
static EPOCH: OnceLock<Instant> = OnceLock::new();

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, bytes: &[u8]) {
        for chunk in bytes.chunks(8) {
            let mut b = [0; 8];
            b[..chunk.len()].copy_from_slice(chunk);
            self.write_u64(u64::from_le_bytes(b) ^ ((chunk.len() as u64) << 56));
        }
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 32)
    }
}

fn journal_path(root: &std::path::Path, id: &str) -> PathBuf {
    root.join("replay").join(format!("{id}.journal"))
}

/// Run `body` in a child process, so that a crash of the code under test can be reported
pub fn main(body: impl Fn(&Run)) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = match args.get(2).map(String::as_str) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    std::fs::create_dir_all(root.join("replay")).unwrap();
    std::fs::create_dir_all(root.join("evidence")).unwrap();
    let journal = journal_path(&root, &id);

    if std::env::var_os("MC_CHILD").is_none() {
        let _ = std::fs::remove_file(&journal);
        let status = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&args[1..])
            .env("MC_CHILD", "1")
            .status()
            .expect("cannot start the worker process");
        let code = match status.code() {
            Some(code @ (0 | 1)) => code,
            other => {
                use std::os::unix::process::ExitStatusExt;
                let how = format!("exit code {other:?}, signal {:?}", status.signal());
                if status.signal().is_some_and(|s| s != libc::SIGKILL && s != libc::SIGTERM) {
                    // The code under test aborted or overflowed the stack
                    let docs = read_journal(&journal);
                    let path = root.join("replay").join(format!("{id}-crash.json"));
                    let _ = std::fs::write(
                        &path,
                        format!(
                            "{{\"property\":{},\"what\":{},\"inputs_in_flight\":[{}]}}\n",
                            json(&id),
                            json(&format!("the process died ({how}) while executing one of these")),
                            docs.iter().map(|d| json(d)).collect::<Vec<_>>().join(",")
                        ),
                    );
                    println!("crashed: {how}");
                    for d in &docs {
                        println!("  in flight: {}", short(d));
                    }
                    println!("VIOLATION property={id} replay={}", path.display());
                    1
                } else {
                    println!("check error: {how}");
                    2
                }
            }
        };
        let _ = std::fs::remove_file(&journal);
        std::process::exit(code);
    }

    unsafe {
        // A runaway allocation must end this process, not the sandbox
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let file = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(&journal)
        .unwrap();
    file.set_len((SLOTS * SLOT) as u64).unwrap();
    let map = unsafe {
        use std::os::fd::AsRawFd;
        libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            file.as_raw_fd(),
            0,
        )
    };
    assert!(map != libc::MAP_FAILED);
    let _ = SLOTS_MAP.set(Slots { map: map.cast(), since: [const { AtomicU64::new(0) }; SLOTS] });
    let _ = EPOCH.set(Instant::now());
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            p.clear();
            let _ = write!(p, "{info}");
        })
    }));

    let run = Run {
        id,
        tier,
        root,
        started: Instant::now(),
        inner: Mutex::default(),
        stop: AtomicBool::new(false),
        parts: Mutex::default(),
    };
    let run: &'static Run = Box::leak(Box::new(run));
    std::thread::spawn(move || watchdog(run));
    let result = catch_unwind(AssertUnwindSafe(|| body(run)));
    if result.is_err() {
        PANIC.with(|p| println!("check error: harness panicked: {}", p.borrow()));
        std::process::exit(2);
    }
    let ok = run.finish();
    std::process::exit(if ok { 0 } else { 1 });
}

fn read_journal(path: &std::path::Path) -> Vec<String> {
    let Ok(bytes) = std::fs::read(path) else { return Vec::new() };
    bytes
        .chunks(SLOT)
        .filter_map(|s| {
            let len = u32::from_le_bytes(s.get(..4)?.try_into().ok()?) as usize;
            (len > 0).then(|| String::from_utf8_lossy(&s[4..4 + len.min(SLOT - 4)]).into_owned())
        })
        .collect()
}

fn watchdog(run: &'static Run) {
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let slots = SLOTS_MAP.get().unwrap();
        let now = EPOCH.get().unwrap().elapsed().as_millis() as u64;
        for (i, since) in slots.since.iter().enumerate() {
            let t = since.load(Ordering::Relaxed);
            if t != 0 && now.saturating_sub(t) > HANG.as_millis() as u64 {
                let what = unsafe {
                    let base = slots.map.add(i * SLOT);
                    let len = (*base.cast::<u32>()) as usize;
                    String::from_utf8_lossy(std::slice::from_raw_parts(base.add(4), len)).into_owned()
                };
                run.violation("hang", &what, "a result in bounded time", "still running after 20 s");
                run.finish();
                std::process::exit(1);
            }
        }
    }
}

pub fn json(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 2);
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

pub fn short(s: &str) -> String {
    match s.char_indices().nth(600) {
        None => s.to_owned(),
        Some((i, _)) => format!("{}… ({} bytes)", &s[..i], s.len()),
    }
}

impl Run {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `q` in the quick tier, `t` in the thorough one
    pub fn pick<T>(&self, q: T, t: T) -> T {
        match self.tier {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    /// Work through all items on all cores
    pub fn par<I: Sync>(&self, part: &str, items: &[I], f: impl Fn(&mut Cx<'_>, &I) + Sync) {
        let t = Instant::now();
        let next = AtomicUsize::new(0);
        let before = self.inner.lock().unwrap().evals;
        let broken = AtomicBool::new(false);
        std::thread::scope(|s| {
            for slot in 0..WORKERS {
                let (next, f, broken) = (&next, &f, &broken);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut cx = Cx::new(self, slot);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx, &items[i])));
                            if r.is_err() {
                                PANIC.with(|p| println!("harness panic in {part}: {}", p.borrow()));
                                broken.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        cx.merge();
                    })
                    .unwrap();
            }
        });
        if broken.load(Ordering::Relaxed) {
            println!("check error: harness panicked");
            std::process::exit(2);
        }
        let evals = self.inner.lock().unwrap().evals - before;
        let line = format!("{part}: {} items, {evals} evaluations, {:.1} s", items.len(), t.elapsed().as_secs_f64());
        println!("  {line}");
        self.parts.lock().unwrap().push(line);
    }

    /// One work item on the current thread
    pub fn seq(&self, part: &str, f: impl Fn(&mut Cx<'_>) + Sync) {
        self.par(part, &[()], |cx, _| f(cx));
    }

    pub fn violation(&self, kind: &str, input: &str, want: &str, got: &str) {
        let n = {
            let mut inner = self.inner.lock().unwrap();
            inner.violations += 1;
            inner.violations
        };
        self.stop.store(true, Ordering::Relaxed);
        if n > 5 {
            return;
        }
        let path = self.root.join("replay").join(format!("{}-{n}.json", self.id));
        let _ = std::fs::write(
            &path,
            format!(
                "{{\"property\":{},\"kind\":{},\"input\":{},\"expected\":{},\"actual\":{}}}\n",
                json(&self.id),
                json(kind),
                json(input),
                json(want),
                json(got)
            ),
        );
        println!(
            "violated [{kind}]\n  input:    {}\n  expected: {}\n  actual:   {}",
            short(input),
            short(want),
            short(got)
        );
        println!("VIOLATION property={} replay={}", self.id, path.display());
    }

    /// A finding that is listed in known_findings.json is announced, any other is a violation
    pub fn probe(&self, key: &str, input: &str, want: &str, got: &str, holds: bool) {
        if holds {
            return;
        }
        let file = self.root.join("known_findings.json");
        let text = std::fs::read_to_string(file).unwrap_or_default();
        let listed = text.contains(&format!("\"key\": {}", json(key)))
            && text.contains(&format!("\"property\": {}", json(&self.id)));
        if listed {
            println!("KNOWN-FINDING: property={} {key}: {} gives {}", self.id, short(input), short(got));
            self.inner.lock().unwrap().known.push(key.to_owned());
        } else {
            self.violation(&format!("probe {key}"), input, want, got);
        }
    }

    fn finish(&self) -> bool {
        let inner = self.inner.lock().unwrap();
        let meta = crate::meta::of(&self.id);
        let mut out = String::new();
        let _ = write!(
            out,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            json(&self.id),
            json(match self.tier {
                Tier::Quick => "quick",
                Tier::Thorough => "thorough",
            }),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
            json(meta.level),
        );
        if meta.level == "model_checking" {
            let _ = write!(
                out,
                "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
                inner.states.len(),
                inner.transitions,
                inner.validated
            );
        }
        let _ = write!(
            out,
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            inner.evals,
            inner.distinct.len(),
            json(meta.rule)
        );
        let _ = write!(
            out,
            "  \"accepted\": {},\n  \"rejected\": {},\n  \"left_open\": {},\n",
            inner.accepted, inner.rejected, inner.open
        );
        let parts = self.parts.lock().unwrap();
        let _ = write!(
            out,
            "  \"parts\": [{}],\n",
            parts.iter().map(|p| json(p)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            out,
            "  \"samples\": [{}],\n  \"exhaustive\": {}\n }},\n",
            inner.samples.iter().take(24).map(|s| json(&short(s))).collect::<Vec<_>>().join(", "),
            inner.violations == 0
        );
        let _ = write!(
            out,
            " \"assumptions\": [{}],\n",
            meta.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            out,
            " \"known_findings\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            inner.known.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
            self.started.elapsed().as_secs_f64(),
            inner.violations
        );
        std::fs::write(self.root.join("evidence").join(format!("{}.json", self.id)), out).unwrap();
        println!(
            "{}: {} evaluations, {} distinct, {} accepted, {} rejected, {} open, {} violations, {:.1} s",
            self.id,
            inner.evals,
            inner.distinct.len(),
            inner.accepted,
            inner.rejected,
            inner.open,
            inner.violations,
            self.started.elapsed().as_secs_f64()
        );
        inner.violations == 0
    }
}

impl<'r> Cx<'r> {
    fn new(run: &'r Run, slot: usize) -> Self {
        Self {
            run,
            slot,
            evals: 0,
            distinct: HashSet::new(),
            transitions: 0,
            states: HashSet::new(),
            validated: 0,
            open: 0,
            accepted: 0,
            rejected: 0,
            samples: Vec::new(),
        }
    }

    fn merge(self) {
        let mut inner = self.run.inner.lock().unwrap();
        inner.evals += self.evals;
        match inner.distinct.is_empty() {
            true => inner.distinct = self.distinct,
            false => inner.distinct.extend(self.distinct),
        }
        match inner.states.is_empty() {
            true => inner.states = self.states,
            false => inner.states.extend(self.states),
        }
        inner.nontrivial += 0;
        inner.transitions += self.transitions;
        inner.validated += self.validated;
        inner.open += self.open;
        inner.accepted += self.accepted;
        inner.rejected += self.rejected;
        inner.samples.extend(self.samples);
    }

    /// Count one evaluation; `key` identifies the case for the count of distinct ones
    pub fn count(&mut self, key: u64) -> bool {
        self.evals += 1;
        self.distinct.insert(key)
    }

    pub fn state(&mut self, key: u64) -> bool {
        self.states.insert(key)
    }

    /// Keep a few cases for the evidence file
    pub fn sample(&mut self, make: impl FnOnce() -> String) {
        if self.samples.len() < 3 && self.evals % 97 == 3 || self.samples.is_empty() {
            self.samples.push(make());
        }
    }

    /// Call the code under test
    pub fn guard<T>(&self, what: &str, input: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        let slots = SLOTS_MAP.get().unwrap();
        unsafe {
            let base = slots.map.add(self.slot * SLOT);
            let a = what.len().min(200);
            let b = input.len().min(SLOT - 4 - 202);
            std::ptr::copy_nonoverlapping(what.as_ptr(), base.add(4), a);
            *base.add(4 + a) = b':';
            *base.add(5 + a) = b' ';
            std::ptr::copy_nonoverlapping(input.as_ptr(), base.add(6 + a), b);
            *base.cast::<u32>() = (a + b + 2) as u32;
        }
        let now = EPOCH.get().unwrap().elapsed().as_millis() as u64 + 1;
        slots.since[self.slot].store(now, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        slots.since[self.slot].store(0, Ordering::Relaxed);
        unsafe {
            *slots.map.add(self.slot * SLOT).cast::<u32>() = 0;
        }
        r.map_err(|_| PANIC.with(|p| format!("panic: {}", p.borrow())))
    }

    pub fn violation(&self, kind: &str, input: &str, want: &str, got: &str) {
        self.run.violation(kind, input, want, got);
    }
}
