//! Workload engine: byte-tape generator, coverage-guided loop, observation counters, crash
//! journal, panic capture, allocation meter and CPU-time watchdog.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ coverage runtime

#[cfg(not(miri))]
mod ffi {
    unsafe extern "C" {
        pub fn vp_cov_begin();
        pub fn vp_cov_end(seen: *mut u8, n: u64) -> u32;
        pub fn vp_cov_total() -> u64;
        pub fn vp_dict(out: *mut u64, max: u32) -> u32;
        pub fn vp_dict_len() -> u32;
        pub fn vp_ring(i: u32, a: *mut u64, b: *mut u64) -> i32;
    }
}

pub struct Cov {
    seen: Vec<u8>,
}
impl Cov {
    pub fn new() -> Self {
        #[cfg(not(miri))]
        return Cov { seen: vec![0; unsafe { ffi::vp_cov_total() } as usize] };
        #[cfg(miri)]
        Cov { seen: vec![] }
    }
    pub fn active(&self) -> bool {
        !self.seen.is_empty()
    }
    pub fn begin(&self) {
        #[cfg(not(miri))]
        if self.active() {
            unsafe { ffi::vp_cov_begin() }
        }
    }
    pub fn end(&mut self) -> u32 {
        #[cfg(not(miri))]
        if self.active() {
            return unsafe { ffi::vp_cov_end(self.seen.as_mut_ptr(), self.seen.len() as u64) };
        }
        0
    }
    pub fn edges(&self) -> (usize, usize) {
        (self.seen.iter().filter(|&&b| b != 0).count(), self.seen.len())
    }
    pub fn dict_len(&self) -> usize {
        #[cfg(not(miri))]
        return unsafe { ffi::vp_dict_len() } as usize;
        #[cfg(miri)]
        0
    }
    pub fn dict(&self) -> Vec<u64> {
        #[cfg(not(miri))]
        {
            let mut v = vec![0; 1024];
            let n = unsafe { ffi::vp_dict(v.as_mut_ptr(), 1024) } as usize;
            v.truncate(n.min(1024));
            return v;
        }
        #[cfg(miri)]
        vec![]
    }
    pub fn ring(&self, _i: u32) -> (u64, u64, i32) {
        #[cfg(not(miri))]
        {
            let (mut a, mut b) = (0, 0);
            let s = unsafe { ffi::vp_ring(_i, &mut a, &mut b) };
            return (a, b, s);
        }
        #[cfg(miri)]
        (0, 0, 0)
    }
}

// ------------------------------------------------------------------ allocation meter

pub struct Meter;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

impl Meter {
    fn up(n: usize) -> bool {
        let l = LIVE.fetch_add(n, Relaxed) + n;
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
        l <= CAP.load(Relaxed)
    }
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !Meter::up(l.size()) {
            LIVE.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !Meter::up(l.size()) {
            LIVE.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !Meter::up(n - l.size()) {
                LIVE.fetch_sub(n - l.size(), Relaxed);
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Peak number of bytes allocated by `f` above what was live before it.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}

// ------------------------------------------------------------------ randomness and tape

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x6a09e667f3bcc909)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next() ^ r.next().rotate_left(32)
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        h = (h ^ p.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
        for c in p.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 29;
        }
    }
    h
}

const BOUNDARY: &[u64] = &[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 65535, 65536];
const BYTES_I: &[u8] = &[0, 1, 2, 0x0f, 0x10, 0x1b, 0x20, 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0x55, 0xf0, 0xfe, 0xff];

/// Every choice of a case is read from the tape; past its end, fresh (biased) values are
/// drawn and recorded, so that the finished tape alone reproduces the case.
pub struct Tape<'a> {
    pub buf: Vec<u8>,
    pos: usize,
    rng: Rng,
    dict: &'a [u64],
}
impl<'a> Tape<'a> {
    pub fn new(prefix: Vec<u8>, seed: u64, dict: &'a [u64]) -> Self {
        Tape { buf: prefix, pos: 0, rng: Rng::new(seed), dict }
    }
    fn word(&mut self, n: usize, fresh: impl FnOnce(&mut Rng, &[u64]) -> u64) -> u64 {
        let mut x = [0u8; 8];
        if self.pos + n > self.buf.len() {
            self.buf.truncate(self.pos);
            let v = fresh(&mut self.rng, self.dict);
            self.buf.extend_from_slice(&v.to_le_bytes()[..n]);
        }
        x[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
        self.pos += n;
        u64::from_le_bytes(x)
    }
    pub fn u64(&mut self) -> u64 {
        self.word(8, |r, _| r.next())
    }
    pub fn byte(&mut self) -> u8 {
        self.word(1, |r, _| r.next()) as u8
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n <= 256 {
            self.word(1, |r, _| r.below(n)) % n
        } else if n <= 1 << 16 {
            self.word(2, |r, _| r.below(n)) % n
        } else {
            self.word(8, |r, _| r.below(n)) % n
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// a length in lo..=hi, biased to small, boundary and comparison-derived values
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        let (l, h) = (lo as u64, hi as u64);
        let v = self.word(4, |r, d| {
            let jitter = |r: &mut Rng, v: u64| v.wrapping_add(r.below(3)).wrapping_sub(1);
            let v = match r.below(8) {
                0 => l + r.below((h - l + 1).min(4)),
                1 => h - r.below((h - l + 1).min(4)),
                2 => jitter(r, *r.clone().pick(BOUNDARY)),
                3 if !d.is_empty() => {
                    let v = *r.pick(d);
                    jitter(r, v)
                }
                4 | 5 => l + r.below((h - l + 1).min(40)),
                _ => l + r.below(h - l + 1),
            };
            if v < l || v > h { l + r.below(h - l + 1) } else { v }
        });
        if v >= l && v <= h { v as usize } else { (l + v % (h - l + 1)) as usize }
    }
    /// n bytes with varied structure
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if self.pos + n > self.buf.len() {
            self.buf.truncate(self.pos);
            let mut v = vec![0u8; n];
            let r = &mut self.rng;
            let d = self.dict;
            match r.below(10) {
                0 => {
                    let b = *r.pick(BYTES_I);
                    v.fill(b);
                }
                1 => {
                    let b = r.next() as u8;
                    v.fill(b);
                }
                2 => {
                    for b in v.iter_mut() {
                        *b = if r.chance(1, 2) { *r.pick(BYTES_I) } else { r.next() as u8 };
                    }
                }
                3 => {
                    let (x, y) = (*r.pick(BYTES_I), r.next() as u8);
                    let at = r.below(n as u64 + 1) as usize;
                    v[..at].fill(x);
                    v[at..].fill(y);
                }
                4 => {
                    if n > 0 {
                        let k = 1 + r.below(3);
                        for _ in 0..k {
                            let i = r.below(n as u64) as usize;
                            v[i] = 1 << r.below(8);
                        }
                    }
                }
                5 => {
                    let (a, s) = (r.next() as u8, *r.pick(&[1u8, 1, 255, 3, 16, 17]));
                    for (i, b) in v.iter_mut().enumerate() {
                        *b = a.wrapping_add((i as u8).wrapping_mul(s));
                    }
                }
                _ => r.fill(&mut v),
            }
            if n > 0 && !d.is_empty() && r.chance(1, 3) {
                for _ in 0..1 + r.below(3) {
                    let x = *r.pick(d);
                    let w = [1usize, 1, 2, 4, 8][r.below(5) as usize].min(n);
                    let at = r.below((n - w + 1) as u64) as usize;
                    if r.chance(1, 2) {
                        v[at..at + w].copy_from_slice(&x.to_le_bytes()[..w]);
                    } else {
                        v[at..at + w].copy_from_slice(&x.to_be_bytes()[8 - w..]);
                    }
                }
            }
            self.buf.extend_from_slice(&v);
        }
        self.pos += n;
        self.buf[self.pos - n..self.pos].to_vec()
    }
    pub fn blob(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.size(lo, hi);
        self.bytes(n)
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    /// n pseudo-random bytes of which only the seed is on the tape
    pub fn seeded(&mut self, n: usize) -> Vec<u8> {
        let s = self.u64();
        Rng::new(s).bytes(n)
    }
    pub fn sub_rng(&mut self) -> Rng {
        let s = self.u64();
        Rng::new(s)
    }
}

// ------------------------------------------------------------------ observations

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
}

pub struct Cx {
    pub thorough: bool,
    pub evals: u64,
    pub calls: u64,
    pub refusals: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Violation>,
    pub deadline: Instant,
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{} at {}", msg.chars().take(200).collect::<String>(), loc);
        if std::env::var_os("VP_VERBOSE").is_some() {
            eprintln!("panic: {m}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// VP_TRACE=1: prints where each slow call was made and how long it took.
#[cfg(miri)]
struct TraceEnd(Option<Instant>, &'static std::panic::Location<'static>);
#[cfg(miri)]
impl Drop for TraceEnd {
    fn drop(&mut self) {
        if let Some(t) = self.0 {
            eprintln!("call {:?} {}", t.elapsed(), self.1);
        }
    }
}
#[cfg(miri)]
#[track_caller]
fn trace_start() -> TraceEnd {
    let on = std::env::var_os("VP_TRACE").is_some();
    TraceEnd(on.then(Instant::now), std::panic::Location::caller())
}

impl Cx {
    pub fn new(thorough: bool) -> Self {
        Cx {
            thorough,
            evals: 0,
            calls: 0,
            refusals: 0,
            distinct: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            deadline: Instant::now() + Duration::from_secs(100_000),
        }
    }
    /// One call into the code under test; Err is the panic message.
    #[cfg_attr(miri, track_caller)]
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.calls += 1;
        #[cfg(miri)]
        let _t = trace_start();
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
            self.refusals += 1;
            last_panic()
        })
    }
    /// A call that must not panic.
    pub fn must<T>(&mut self, sig: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match self.call(f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.viol(&format!("{sig}: panic"), format!("{}: panicked: {e}", ctx()));
                None
            }
        }
    }
    /// A call that must be refused by panicking.
    pub fn refuse<T>(&mut self, sig: &str, ctx: impl FnOnce(&T) -> String, f: impl FnOnce() -> T) {
        if let Ok(v) = self.call(f) {
            self.viol(&format!("{sig}: not refused"), ctx(&v));
        }
    }
    pub fn eq(&mut self, sig: &str, got: &[u8], want: &[u8], ctx: impl FnOnce() -> String) -> bool {
        if got == want {
            return true;
        }
        self.viol(sig, format!("{}: got {} want {}", ctx(), hex(got), hex(want)));
        false
    }
    pub fn check(&mut self, ok: bool, sig: &str, ctx: impl FnOnce() -> String) -> bool {
        if !ok {
            self.viol(sig, ctx());
        }
        ok
    }
    pub fn viol(&mut self, sig: &str, detail: String) {
        self.viols.push(Violation { sig: sig.to_string(), detail });
    }
    pub fn class(&mut self, c: &str) {
        self.class_n(c, 1);
    }
    pub fn class_n(&mut self, c: &str, n: u64) {
        if let Some(v) = self.classes.get_mut(c) {
            *v += n;
        } else if self.classes.len() < 400 {
            self.classes.insert(c.to_string(), n);
        }
    }
    /// Records a non-trivial case (distinct by content).
    pub fn case(&mut self, parts: &[&[u8]]) {
        self.evals += 1;
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(hash64(parts));
        }
    }
    pub fn sample(&mut self, every: u64, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 && self.evals % every == 0 {
            self.samples.push(f());
        }
    }
    pub fn expired(&self) -> bool {
        Instant::now() >= self.deadline
    }
}

// ------------------------------------------------------------------ scenarios and runner

pub type CaseFn = fn(u64, &mut Tape, &mut Cx);

pub struct Scenario {
    pub name: &'static str,
    /// number of enumerated items (quick, thorough); 0 = random only
    pub sweep: (u64, u64),
    /// weight in the random loop; 0 = enumerated only
    pub weight: u32,
    /// items are few and slow: they may take up to 150 s of CPU each
    pub heavy: bool,
    /// only in the unchecked (release) build
    pub plain_only: bool,
    pub f: CaseFn,
}
impl Scenario {
    pub const fn sweep(name: &'static str, q: u64, t: u64, f: CaseFn) -> Self {
        Scenario { name, sweep: (q, t), weight: 0, heavy: false, plain_only: false, f }
    }
    pub const fn random(name: &'static str, weight: u32, f: CaseFn) -> Self {
        Scenario { name, sweep: (0, 0), weight, heavy: false, plain_only: false, f }
    }
    pub const fn heavy(name: &'static str, q: u64, t: u64, f: CaseFn) -> Self {
        Scenario { name, sweep: (q, t), weight: 0, heavy: true, plain_only: false, f }
    }
    pub const fn heavy_plain(name: &'static str, q: u64, t: u64, f: CaseFn) -> Self {
        Scenario { name, sweep: (q, t), weight: 0, heavy: true, plain_only: true, f }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub scenarios: &'static [Scenario],
    /// memory cap for the worker (bytes)
    pub cap: usize,
}

#[derive(Clone)]
pub struct Opts {
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub cases: u64,
    pub secs: f64,
    pub out: String,
    pub thorough: bool,
    pub plain: bool,
    pub only: Option<String>,
    pub sweep_frac: u64, // run every k-th sweep item only (slow configurations)
}

pub struct Found {
    pub v: Violation,
    pub scenario: &'static str,
    pub idx: u64,
    pub tape: Vec<u8>,
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_LIMIT_MS: AtomicU64 = AtomicU64::new(0);

pub fn cpu_ms() -> u64 {
    // utime + stime of this process, in clock ticks (100 Hz)
    let Ok(s) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let Some(p) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[p + 2..].split(' ').collect();
    let t: u64 = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
    t * 10
}

/// Set while the worker waits for a process of its own.
pub static WAITING: AtomicBool = AtomicBool::new(false);

/// Is every thread of this process but the calling one asleep?
fn all_asleep() -> bool {
    let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_owned()));
    let (Some(me), Ok(dir)) = (me, std::fs::read_dir("/proc/self/task")) else { return false };
    for e in dir.flatten() {
        if e.file_name() == me {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { return false };
        let Some(p) = s.rfind(')') else { return false };
        if s.as_bytes().get(p + 2) != Some(&b'S') {
            return false;
        }
    }
    true
}

pub fn start_watchdog() {
    #[cfg(not(miri))]
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut at = 0;
        // successive observations of "the same case, no CPU used, every thread asleep"
        let (mut asleep, mut used) = (0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let (n, c) = (CASE_NO.load(Relaxed), cpu_ms());
            // (the watchdog itself uses a little)
            if n != last || c > used + 100 || WAITING.load(Relaxed) || !all_asleep() {
                (asleep, used) = (0, c);
            } else {
                asleep += 1;
            }
            if asleep > 150 {
                eprintln!("VP-STUCK all threads are blocked");
                std::process::exit(98);
            }
            let n = CASE_NO.load(Relaxed);
            let lim = CASE_LIMIT_MS.load(Relaxed);
            if n != last {
                last = n;
                at = cpu_ms();
            } else if lim != 0 && cpu_ms() - at > lim {
                eprintln!("VP-HANG case used more than {lim} ms of CPU");
                std::process::exit(97);
            }
        }
    });
}

fn set_case(limit_ms: u64) {
    CASE_NO.fetch_add(1, Relaxed);
    CASE_LIMIT_MS.store(limit_ms, Relaxed);
}

pub fn case_limit_ms(s: &Scenario) -> u64 {
    let base = if s.heavy { 150_000 } else { 30_000 };
    std::env::var("VP_SLOW").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(1) * base
}

struct Journal {
    f: Option<std::fs::File>,
    path: String,
    dict_len: usize,
}
impl Journal {
    fn new(path: &str) -> Self {
        #[cfg(not(miri))]
        let f = std::fs::File::create(path).ok();
        #[cfg(miri)]
        let f = None;
        Journal { f, path: path.to_string(), dict_len: 0 }
    }
    /// record: name length, name, idx, seed, prefix length, prefix
    fn write(&mut self, name: &str, idx: u64, seed: u64, prefix: &[u8], dict: &[u64]) {
        let Some(f) = &self.f else { return };
        if dict.len() != self.dict_len {
            let b: Vec<u8> = dict.iter().flat_map(|d| d.to_le_bytes()).collect();
            let _ = std::fs::write(format!("{}.dict", self.path), b);
            self.dict_len = dict.len();
        }
        let mut b = Vec::with_capacity(64 + prefix.len());
        b.extend_from_slice(&(name.len() as u64).to_le_bytes());
        b.extend_from_slice(name.as_bytes());
        b.extend_from_slice(&idx.to_le_bytes());
        b.extend_from_slice(&seed.to_le_bytes());
        b.extend_from_slice(&(prefix.len() as u64).to_le_bytes());
        b.extend_from_slice(prefix);
        use std::os::unix::fs::FileExt;
        let _ = f.write_at(&b, 0);
    }
}

pub struct Report {
    pub cx: Cx,
    pub found: Vec<Found>,
    pub sweep_done: u64,
    pub sweep_total: u64,
    pub random: u64,
    pub corpus: u64,
    pub features: u64,
    pub edges: (usize, usize),
    pub harness_error: Option<String>,
    pub per_scenario: BTreeMap<&'static str, u64>,
    pub secs: f64,
}

fn run_case(s: &Scenario, idx: u64, t: &mut Tape, cx: &mut Cx) -> Result<Vec<Violation>, String> {
    set_case(case_limit_ms(s));
    cx.viols.clear();
    match catch_unwind(AssertUnwindSafe(|| (s.f)(idx, t, cx))) {
        Ok(()) => Ok(std::mem::take(&mut cx.viols)),
        Err(_) => Err(format!("harness panic in {}[{idx}]: {}", s.name, last_panic())),
    }
}

fn mutate(base: &[u8], other: Option<&[u8]>, r: &mut Rng, dict: &[u64], cov: &Cov) -> Vec<u8> {
    let mut v = base.to_vec();
    for _ in 0..1 + r.below(4) {
        if v.is_empty() {
            v.push(r.next() as u8);
        }
        let n = v.len() as u64;
        match r.below(12) {
            0 => {
                let i = r.below(n) as usize;
                v[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(n) as usize;
                v[i] = r.next() as u8;
            }
            2 => {
                let i = r.below(n) as usize;
                v[i] = *r.pick(BYTES_I);
            }
            3 => {
                let i = r.below(n) as usize;
                v[i] = v[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 });
            }
            4 => {
                // cut: later choices become fresh
                let i = r.below(n) as usize;
                v.truncate(i);
            }
            5 => {
                let (a, l) = (r.below(n) as usize, 1 + r.below(16.min(n)) as usize);
                let b = (a + l).min(v.len());
                let c: Vec<u8> = v[a..b].to_vec();
                let at = r.below(n) as usize;
                let e = (at + c.len()).min(v.len());
                v[at..e].copy_from_slice(&c[..e - at]);
            }
            6 => {
                let at = r.below(n) as usize;
                let l = 1 + r.below(8) as usize;
                let ins = r.bytes(l);
                v.splice(at..at, ins);
            }
            7 => {
                let at = r.below(n) as usize;
                let e = (at + 1 + r.below(8) as usize).min(v.len());
                v.drain(at..e);
            }
            8 | 9 if !dict.is_empty() => {
                let x = *r.pick(dict);
                let w = *r.pick(&[1usize, 1, 2, 4, 8]);
                if v.len() >= w {
                    let at = r.below((v.len() - w + 1) as u64) as usize;
                    if r.chance(1, 2) {
                        v[at..at + w].copy_from_slice(&x.to_le_bytes()[..w]);
                    } else {
                        v[at..at + w].copy_from_slice(&x.to_be_bytes()[8 - w..]);
                    }
                }
            }
            10 => {
                // operand replacement: make one side of a recent comparison equal to the other
                let (a, b, sz) = cov.ring(r.next() as u32 % 64);
                if sz > 0 {
                    let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
                    for w in [sz as usize, 1, 2, 4] {
                        if w > 8 || v.len() < w {
                            continue;
                        }
                        let (pl, pb) = (a.to_le_bytes()[..w].to_vec(), a.to_be_bytes()[8 - w..].to_vec());
                        let start = r.below(v.len() as u64) as usize;
                        let mut done = false;
                        for k in 0..v.len() {
                            let i = (start + k) % v.len();
                            if i + w > v.len() {
                                continue;
                            }
                            if v[i..i + w] == pl[..] {
                                v[i..i + w].copy_from_slice(&b.to_le_bytes()[..w]);
                                done = true;
                            } else if v[i..i + w] == pb[..] {
                                v[i..i + w].copy_from_slice(&b.to_be_bytes()[8 - w..]);
                                done = true;
                            }
                            if done {
                                break;
                            }
                        }
                        if done {
                            break;
                        }
                    }
                }
            }
            _ => {
                if let Some(o) = other {
                    let a = r.below(n) as usize;
                    let b = r.below(o.len() as u64 + 1) as usize;
                    v.truncate(a);
                    v.extend_from_slice(&o[b.min(o.len())..]);
                }
            }
        }
        if v.len() > 1 << 16 {
            v.truncate(1 << 16);
        }
    }
    v
}

pub fn run(p: &Prop, o: &Opts) -> Report {
    CAP.store(p.cap, Relaxed);
    let start = Instant::now();
    let mut cov = Cov::new();
    let mut cx = Cx::new(o.thorough);
    let mut found: Vec<Found> = vec![];
    let mut sigs: BTreeMap<String, u32> = BTreeMap::new();
    let mut journal = Journal::new(&format!("{}.journal", o.out));
    let mut per: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut dict: Vec<u64> = vec![];
    let (mut done, mut total) = (0, 0);
    let mut err: Option<String> = None;
    let deadline = start + Duration::from_secs_f64(o.secs);
    cx.deadline = deadline;
    // the enumerated part is mandatory: it may use three times the budget
    let sweep_deadline = start + Duration::from_secs_f64(if cfg!(miri) { o.secs } else { o.secs * 3.0 + 60.0 });
    let wanted = |s: &Scenario| o.only.as_deref().is_none_or(|n| n == s.name) && (!s.plain_only || o.plain);
    let mut stop_at: Option<Instant> = None;
    let note = |r: Result<Vec<Violation>, String>, s: &'static str, idx: u64, tape: &[u8], found: &mut Vec<Found>, sigs: &mut BTreeMap<String, u32>, err: &mut Option<String>, stop_at: &mut Option<Instant>| match r {
        Ok(vs) => {
            for v in vs {
                let n = sigs.entry(v.sig.clone()).or_insert(0);
                *n += 1;
                if *n <= 1 && found.len() < 24 {
                    found.push(Found { v, scenario: s, idx, tape: tape.to_vec() });
                }
                stop_at.get_or_insert(Instant::now() + Duration::from_secs(3));
            }
            true
        }
        Err(e) => {
            *err = Some(e);
            false
        }
    };
    'all: {
        for s in p.scenarios.iter().filter(|s| wanted(s)) {
            let n = if o.thorough { s.sweep.1 } else { s.sweep.0 };
            let step = if s.heavy { 1 } else { o.sweep_frac.max(1) };
            let mut k = 0u64;
            let mut i = 0;
            while i < n {
                if k % o.shards == o.shard {
                    total += 1;
                    let seed = mix(o.seed, mix(i, hash64(&[s.name.as_bytes()])));
                    journal.write(s.name, i, seed, &[], &[]);
                    let mut t = Tape::new(vec![], seed, &[]);
                    cov.begin();
                    let r = run_case(s, i, &mut t, &mut cx);
                    if done % 64 == 0 {
                        cov.end();
                    }
                    *per.entry(s.name).or_default() += 1;
                    done += 1;
                    if !note(r, s.name, i, &t.buf, &mut found, &mut sigs, &mut err, &mut stop_at) {
                        break 'all;
                    }
                    if stop_at.is_some_and(|d| Instant::now() > d) {
                        break 'all;
                    }
                    if (done % 16 == 0 || cfg!(miri)) && Instant::now() > sweep_deadline {
                        total += (n - i) / (o.shards * step);
                        break;
                    }
                }
                i += step;
                k += 1;
            }
        }
    }
    let rnd: Vec<&'static Scenario> = unsafe_static(p).iter().filter(|s| s.weight > 0 && wanted(s)).collect();
    let mut random = 0u64;
    let mut corpus: Vec<Vec<Vec<u8>>> = vec![vec![]; rnd.len()];
    if !rnd.is_empty() && err.is_none() && o.cases > 0 {
        let mut r = Rng::new(mix(o.seed, 0x1000 + o.shard));
        let tw: u64 = rnd.iter().map(|s| s.weight as u64).sum();
        // the random part always gets some time, even if the enumerated part was slow
        let deadline = deadline.max(Instant::now() + Duration::from_secs_f64((o.secs * 0.3).min(10.0)));
        cx.deadline = deadline;
        while random < o.cases {
            if random % 8 == 0 {
                let now = Instant::now();
                if now > deadline || stop_at.is_some_and(|d| now > d) {
                    break;
                }
                if cov.active() && dict.len() != cov.dict_len().min(1024) {
                    dict = cov.dict();
                }
            }
            let mut w = r.below(tw);
            let mut si = 0;
            while w >= rnd[si].weight as u64 {
                w -= rnd[si].weight as u64;
                si += 1;
            }
            let s = rnd[si];
            let prefix = if !corpus[si].is_empty() && r.chance(1, 2) {
                let n = corpus[si].len() as u64;
                // prefer recent entries
                let a = if r.chance(1, 2) { n - 1 - r.below(n.min(16)) } else { r.below(n) } as usize;
                let b = r.below(n) as usize;
                mutate(&corpus[si][a], Some(&corpus[si][b]), &mut r, &dict, &cov)
            } else {
                vec![]
            };
            let seed = r.next();
            journal.write(s.name, random, seed, &prefix, &dict);
            let mut t = Tape::new(prefix, seed, &dict);
            cov.begin();
            let res = run_case(s, random, &mut t, &mut cx);
            let fresh = cov.end();
            t.buf.truncate(t.pos.max(1).min(t.buf.len()));
            if fresh > 0 && t.buf.len() < 1 << 15 {
                if corpus[si].len() < 4096 {
                    corpus[si].push(t.buf.clone());
                } else {
                    let k = r.below(4096) as usize;
                    corpus[si][k] = t.buf.clone();
                }
            }
            *per.entry(s.name).or_default() += 1;
            random += 1;
            if !note(res, s.name, random - 1, &t.buf, &mut found, &mut sigs, &mut err, &mut stop_at) {
                break;
            }
        }
    }
    let edges = cov.edges();
    Report {
        cx,
        found,
        sweep_done: done,
        sweep_total: total,
        random,
        corpus: corpus.iter().map(|c| c.len() as u64).sum(),
        features: 0,
        edges,
        harness_error: err,
        per_scenario: per,
        secs: start.elapsed().as_secs_f64(),
    }
}

fn unsafe_static(p: &Prop) -> &'static [Scenario] {
    p.scenarios
}

/// Re-runs one recorded case; returns its violations.
pub fn replay(p: &Prop, scenario: &str, idx: u64, tape: Vec<u8>, seed: u64, dict: &[u64], thorough: bool) -> Result<Vec<Violation>, String> {
    CAP.store(p.cap, Relaxed);
    let s = p.scenarios.iter().find(|s| s.name == scenario).ok_or("no such scenario")?;
    let mut cx = Cx::new(thorough);
    let mut t = Tape::new(tape, seed, dict);
    run_case(s, idx, &mut t, &mut cx)
}

// ------------------------------------------------------------------ JSON output

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn json(&self, p: &Prop) -> String {
        let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        let per: BTreeMap<String, u64> = self.per_scenario.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        let viols: Vec<String> = self
            .found
            .iter()
            .map(|f| {
                let tape: String = f.tape.iter().map(|b| format!("{b:02x}")).collect();
                format!("{{\"sig\":{},\"detail\":{},\"scenario\":{},\"idx\":{},\"tape\":{}}}", jstr(&f.v.sig), jstr(&f.v.detail.chars().take(4000).collect::<String>()), jstr(f.scenario), f.idx, jstr(&tape))
            })
            .collect();
        format!(
            "{{\"property\":{},\"rule\":{},\"evals\":{},\"calls\":{},\"refusals\":{},\"distinct\":{},\"sweep_done\":{},\"sweep_total\":{},\"random\":{},\"corpus\":{},\"edges_hit\":{},\"edges\":{},\"secs\":{:.2},\"harness_error\":{},\"classes\":{{{}}},\"scenarios\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
            jstr(p.id),
            jstr(p.rule),
            self.cx.evals,
            self.cx.calls,
            self.cx.refusals,
            self.cx.distinct.len(),
            self.sweep_done,
            self.sweep_total,
            self.random,
            self.corpus,
            self.edges.0,
            self.edges.1,
            self.secs,
            self.harness_error.as_ref().map(|e| jstr(e)).unwrap_or("null".into()),
            map(&self.cx.classes),
            map(&per),
            self.cx.samples.iter().map(|s| jstr(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(","),
            viols.join(",")
        )
    }
}
