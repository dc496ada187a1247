//! Property-based testing engine: choice tapes, fixed-work parallel search, shrinking, replay,
//! crash triage and evidence. A case is a function of a tape of choices only, so that the tape is
//! the complete reproduction of a case.
use crate::dict;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------- choices

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hash_tape(t: &[u64]) -> u64 {
    let mut h = 0x1234567u64;
    for &v in t {
        h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

/// A number of the source, if it is not too large
fn dict(r: &mut Rng, max: u64) -> Option<u64> {
    for _ in 0..3 {
        match dict::get().int(r) {
            Some(v) if v <= max => return Some(v),
            _ => {}
        }
    }
    None
}

pub struct Src {
    pub tape: Vec<u64>,
    replay: Option<Vec<u64>>,
    rng: Rng,
    sink: Option<std::fs::File>,
    /// Numbers and texts chosen earlier in the case: equal and neighbouring ones are tried on purpose.
    recent: Vec<u64>,
    texts: Vec<Vec<u8>>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), replay: None, rng: Rng::new(seed), sink: None, recent: vec![], texts: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { replay: Some(tape), ..Src::random(0) }
    }
    fn push(&mut self, v: u64) {
        // a shortened tape may keep a generator from ever being satisfied
        let cap = self.replay.as_ref().map(|t| 2 * t.len() + 200_000).unwrap_or(5_000_000);
        assert!(self.tape.len() < cap, "the choice tape is too long");
        self.tape.push(v);
        if let Some(f) = &mut self.sink {
            let _ = writeln!(f, "{}", v);
        }
    }
    /// A choice in 0..=max, where 0 is the simplest one. `f` biases the random choice only.
    pub fn draw_with(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &self.replay {
            Some(t) => t.get(self.tape.len()).copied().unwrap_or(0).min(max),
            None => f(&mut self.rng).min(max),
        };
        self.push(v);
        v
    }
    pub fn draw(&mut self, max: u64) -> u64 {
        self.draw_with(max, |r| if max == u64::MAX { r.next() } else { r.below(max + 1) })
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64 - 1) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// True in about num/den of the cases; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw_with(1, |r| (r.below(den) < num) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// Index chosen by weight; index 0 is the simple choice.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        self.draw_with(w.len() as u64 - 1, |r| {
            let mut k = r.below(total);
            for (i, &x) in w.iter().enumerate() {
                if k < x as u64 {
                    return i as u64;
                }
                k -= x as u64;
            }
            0
        }) as usize
    }
    /// Unsigned integer of the given width, biased to the edges.
    pub fn uint(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        self.edge(max)
    }
    /// 0..=max biased to edges and to numbers of the source
    pub fn edge(&mut self, max: u64) -> u64 {
        let recent = std::mem::take(&mut self.recent);
        let v = self.draw_with(max, |r| match r.below(10) {
            9 => {
                let v = if recent.is_empty() { r.next() } else { recent[r.below(recent.len() as u64) as usize] };
                let v = match r.below(8) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => v,
                };
                if v <= max { v } else if max == u64::MAX { v } else { v % (max + 1) }
            }
            8 => match dict(r, max) {
                Some(v) => v,
                None if max == u64::MAX => r.next(),
                None => r.below(max + 1),
            },
            0 => r.below(4).min(max),
            1 => max - r.below(3).min(max),
            2 => {
                let b = r.below(64);
                let v = 1u64 << b;
                match r.below(3) {
                    0 => v,
                    1 => v.wrapping_sub(1),
                    _ => v.wrapping_add(1),
                }
                .min(max)
            }
            3 => {
                // a few significant bytes
                let n = r.below(9) * 8;
                let v = r.next();
                let v = if n >= 64 { v } else { v & ((1u64 << n) - 1) };
                if max == u64::MAX { v } else { v % (max + 1) }
            }
            4 => r.below(256).min(max),
            _ => {
                if max == u64::MAX { r.next() } else { r.below(max + 1) }
            }
        });
        self.recent = recent;
        if self.replay.is_none() && v > 3 && max > 3 {
            if self.recent.len() < 24 {
                self.recent.push(v);
            } else {
                self.recent[self.tape.len() % 24] = v;
            }
        }
        v
    }
    /// Geometric-ish length in 0..=max with occasional larger values.
    pub fn len(&mut self, typical: u64, max: u64) -> usize {
        self.draw_with(max, |r| match r.below(17) {
            16 => dict(r, max.min(typical * 32 + 64)).unwrap_or(0),
            0 => r.below(max + 1),
            1 => max - r.below(max.min(2) + 1),
            2 => 0,
            _ => r.below(typical.min(max) + 1),
        }) as usize
    }
    /// "One more element?" for lists; stops at 0. `p` of 16 is the chance to go on.
    pub fn more(&mut self, p: u64) -> bool {
        self.chance(p, 16)
    }
    /// Arbitrary bytes. Long ones are expanded from one choice.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 24 {
            (0..n).map(|_| self.edge(255) as u8).collect()
        } else {
            let s = self.draw(u64::MAX);
            if s == 0 {
                return vec![0; n];
            }
            let mut r = Rng::new(s);
            match s % 8 {
                0 => vec![(r.next() & 0xff) as u8; n],
                _ => {
                    let mut v = Vec::with_capacity(n + 8);
                    while v.len() < n {
                        v.extend_from_slice(&r.next().to_le_bytes());
                    }
                    v.truncate(n);
                    v
                }
            }
        }
    }
    /// Valid UTF-8 text of exactly n bytes.
    pub fn text(&mut self, n: usize) -> String {
        let new = dict::get().new_strs.len().min(2) as u32;
        let style = self.weighted(&[8, 6, 4, 2, (n > 0) as u32 + new, (n > 1 && n <= 48) as u32 * 2]);
        if style == 4 {
            return self.with_word(n);
        }
        if style == 5 {
            return self.like_earlier(n);
        }
        let s = self.fresh_text(n, style);
        if self.replay.is_none() && n > 1 && n <= 48 {
            if self.texts.len() < 8 {
                self.texts.push(s.clone().into_bytes());
            } else {
                let k = self.tape.len() % 8;
                self.texts[k] = s.clone().into_bytes();
            }
        }
        s
    }
    /// ASCII text of n bytes like one chosen earlier: the same, with other case, or with another end.
    fn like_earlier(&mut self, n: usize) -> String {
        let mut w = match self.texts.len() {
            0 => vec![],
            k => self.texts[self.rng.below(k as u64) as usize].clone(),
        };
        match self.rng.below(6) {
            0 => w.make_ascii_uppercase(),
            1 => {
                w.pop();
            }
            _ => {}
        }
        (0..n).map(|i| self.draw_with(127, |_| w.get(i).copied().unwrap_or(b'a').min(127) as u64) as u8 as char).collect()
    }
    fn fresh_text(&mut self, n: usize, style: usize) -> String {
        let seed = if n > 12 { self.draw(u64::MAX) } else { 0 };
        let mut r = Rng::new(seed);
        let mut s = String::with_capacity(n);
        while s.len() < n {
            let left = n - s.len();
            let mut d = |src: &mut Src, m: u64| -> u64 {
                if n > 12 { if seed == 0 { 0 } else { r.below(m + 1) } } else { src.draw(m) }
            };
            match style {
                0 => s.push((b'a' + d(self, 25) as u8) as char),
                1 => s.push((0x20 + d(self, 0x5e) as u8) as char),
                2 => s.push((d(self, 0x7f) as u8) as char),
                _ => {
                    let k = 1 + d(self, 3).min(left as u64 - 1);
                    let c = match k {
                        1 => d(self, 0x7f) as u32,
                        2 => 0x80 + d(self, 0x77f) as u32,
                        3 => {
                            let v = 0x800 + d(self, 0xf7ff) as u32;
                            if (0xd800..0xe000).contains(&v) { 0xfffd } else { v }
                        }
                        _ => 0x10000 + d(self, 0xfffff) as u32,
                    };
                    s.push(char::from_u32(c).unwrap());
                }
            }
        }
        s
    }
    /// A string of the source (recorded by its characters).
    pub fn word(&mut self) -> String {
        let w = if self.replay.is_some() {
            vec![]
        } else {
            let r = &mut self.rng;
            dict::get().str(r).unwrap_or("").bytes().collect()
        };
        let n = self.draw_with(64, |_| w.len() as u64) as usize;
        let b: Vec<u8> = (0..n).map(|i| self.draw_with(255, |_| w.get(i).copied().unwrap_or(b'a') as u64) as u8).collect();
        String::from_utf8(b).unwrap_or_else(|_| "a".repeat(n))
    }
    /// Text of exactly n bytes that is, begins with, ends in or has a string of the source.
    fn with_word(&mut self, n: usize) -> String {
        let mut w = self.word();
        while w.len() > n {
            w.pop();
        }
        let rest = n - w.len();
        let before = match self.draw(3) {
            0 => 0,
            1 => rest,
            _ => rest / 2,
        };
        let f = (b'a' + self.draw(25) as u8) as char;
        let fill = |k: usize| std::iter::repeat(f).take(k).collect::<String>();
        format!("{}{}{}", fill(before), w, fill(rest - before))
    }
    /// Valid UTF-8 text without NUL.
    pub fn name(&mut self, n: usize) -> String {
        self.text(n).replace('\0', "_")
    }
    /// In-place Fisher-Yates; all-zero choices leave the order alone.
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below(v.len() - i);
            v.swap(i, j);
        }
    }
}

// --------------------------------------------------------------------------------------- cases

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// The harness itself is at fault
    pub harness: bool,
}
impl Fail {
    pub fn new(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), harness: false }
    }
    pub fn harness(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), harness: true }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::engine::Fail::new(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::new(format!($($a)*))) } } }
#[macro_export]
macro_rules! same { ($got:expr, $want:expr, $($a:tt)*) => {{
    let (g, w) = (&$got, &$want);
    if g != w { return Err($crate::engine::Fail::new(format!("{}: got {:?}, expected {:?}", format!($($a)*), g, w))) }
}} }

#[derive(Default)]
pub struct Case {
    pub render: bool,
    pub text: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub known: Vec<(&'static str, String)>,
    pub thorough: bool,
}
impl Case {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.render {
            let s = f();
            if self.text.len() < 20000 {
                self.text.push_str(&s);
                self.text.push('\n');
            }
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(600) {
        let _ = write!(s, "{:02x}", x);
    }
    if b.len() > 600 {
        let _ = write!(s, "..({} bytes)", b.len());
    }
    s
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}..({} chars)", &s[..e], s.len())
}

pub type CaseFn = fn(&mut Src, &mut Case) -> Res;

pub struct Part {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    pub f: CaseFn,
}
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

// ------------------------------------------------------------- code under test, panics, memory

thread_local! {
    static SUT: Cell<u32> = const { Cell::new(0) };
    static PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}
pub mod mem {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        pub static ON: Cell<bool> = const { Cell::new(false) };
        pub static CUR: Cell<i64> = const { Cell::new(0) };
        pub static PEAK: Cell<i64> = const { Cell::new(0) };
    }
    /// No case needs anything near this; reaching it aborts the process, which triage reports.
    pub const HARD: i64 = 3 << 30;
    pub struct Counting;
    fn add(n: i64) -> bool {
        ON.try_with(|on| {
            if !on.get() {
                return true;
            }
            CUR.with(|c| {
                let v = c.get() + n;
                if v > HARD {
                    return false;
                }
                c.set(v);
                PEAK.with(|p| if v > p.get() { p.set(v) });
                true
            })
        })
        .unwrap_or(true)
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if add(l.size() as i64) { System.alloc(l) } else { std::ptr::null_mut() }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if add(l.size() as i64) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as i64));
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if add(n as i64 - l.size() as i64) { System.realloc(p, l, n) } else { std::ptr::null_mut() }
        }
    }
}

/// Runs code under test: a panic in here is the code's, elsewhere it is the harness's.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    SUT.with(|s| s.set(s.get() + 1));
    let r = f();
    SUT.with(|s| s.set(s.get() - 1));
    r
}

/// Runs code under test and reports its peak memory use.
pub fn sut_mem<T>(f: impl FnOnce() -> T) -> (T, i64) {
    mem::CUR.with(|c| c.set(0));
    mem::PEAK.with(|c| c.set(0));
    mem::ON.with(|c| c.set(true));
    let r = sut(f);
    mem::ON.with(|c| c.set(false));
    (r, mem::PEAK.with(|c| c.get()))
}

/// Starts to count the memory held by code under test.
pub fn mem_start() {
    mem::CUR.with(|c| c.set(0));
    mem::PEAK.with(|c| c.set(0));
}
/// Runs code under test and counts what it allocates and frees.
pub fn sut_hold<T>(f: impl FnOnce() -> T) -> T {
    mem::ON.with(|c| c.set(true));
    let r = sut(f);
    mem::ON.with(|c| c.set(false));
    r
}
/// What is held now, and the most so far.
pub fn mem_now() -> (i64, i64) {
    (mem::CUR.with(|c| c.get()), mem::PEAK.with(|c| c.get()))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        mem::ON.with(|c| c.set(false));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // the files of the harness are named relative to its folder
        let foreign = loc.starts_with('/') && !loc.starts_with("/rustc/") && !loc.contains("/registry/") && !loc.contains("/rustlib/");
        let in_sut = SUT.with(|s| s.get() > 0) || foreign;
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("panic at {}: {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some((format!("{} at {}", msg, loc), in_sut)));
    }));
}

pub struct Outcome {
    pub res: Res,
    pub case: Case,
    pub tape: Vec<u64>,
}

pub fn run_case(f: CaseFn, mut src: Src, render: bool, thorough: bool) -> Outcome {
    SUT.with(|s| s.set(0));
    let mut case = Case { render, thorough, ..Default::default() };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut src, &mut case)));
    mem::ON.with(|c| c.set(false));
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            let (m, in_sut) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("unknown panic".into(), false));
            if in_sut {
                Err(Fail::new(format!("panic in the code under test: {}", m)))
            } else {
                Err(Fail::harness(format!("panic in the harness: {}", m)))
            }
        }
    };
    Outcome { res, case, tape: src.tape }
}

pub fn case_seed(seed: u64, id: &str, part: &str, idx: usize) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(id).rotate_left(17) ^ hash_str(part));
    let a = r.next();
    let mut r = Rng::new(a ^ (idx as u64).wrapping_mul(0xD1342543DE82EF95));
    r.next()
}

// -------------------------------------------------------------------------------------- shrink

pub fn shrink(
    tape: Vec<u64>,
    budget: Duration,
    max_runs: usize,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> (Vec<u64>, usize) {
    let start = Instant::now();
    let mut best = tape;
    let mut runs = 0;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if runs >= max_runs || start.elapsed() > budget {
                return (best, runs);
            }
            runs += 1;
            match fails(&cand) {
                Some(t) if (t.len(), &t) < (best.len(), &best) => {
                    best = t;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // drop chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i < best.len() {
                    let mut c = best.clone();
                    let e = (i + size).min(c.len());
                    c.drain(i..e);
                    attempt!(c);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 8usize;
        while size > 0 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
            size /= 2;
        }
        // reduce single choices
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, runs);
        }
    }
}

// -------------------------------------------------------------------------------------- runner

pub struct Config {
    pub thorough: bool,
    pub seed: u64,
    pub verif: String,
    pub slots: Option<String>,
}

struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    parts: Vec<(String, u64, u64)>,
    samples: Vec<String>,
    max_tape: usize,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Slots {
    ptr: *mut u64,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const MAX_THREADS: usize = 512;
impl Slots {
    pub fn open(path: &Option<String>) -> Slots {
        let bytes = MAX_THREADS * 8;
        unsafe {
            let p = match path {
                Some(p) => {
                    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(p).unwrap();
                    f.set_len(bytes as u64).unwrap();
                    use std::os::fd::AsRawFd;
                    libc::mmap(
                        std::ptr::null_mut(),
                        bytes,
                        libc::PROT_READ | libc::PROT_WRITE,
                        libc::MAP_SHARED,
                        f.as_raw_fd(),
                        0,
                    )
                }
                None => libc::mmap(
                    std::ptr::null_mut(),
                    bytes,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                ),
            };
            assert!(p != libc::MAP_FAILED);
            Slots { ptr: p as *mut u64 }
        }
    }
    fn cell(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.ptr.add(i) as *const AtomicU64) }
    }
    pub fn set(&self, thread: usize, part: usize, idx: usize) {
        self.cell(thread).store(1 | (part as u64) << 1 | (idx as u64) << 8, Ordering::SeqCst);
    }
    pub fn clear(&self, thread: usize) {
        self.cell(thread).store(0, Ordering::SeqCst);
    }
    pub fn get(&self, thread: usize) -> Option<(usize, usize)> {
        let v = self.cell(thread).load(Ordering::SeqCst);
        if v & 1 == 0 { None } else { Some(((v >> 1 & 0x7f) as usize, (v >> 8) as usize)) }
    }
}

fn thread_cpu(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

/// CPU seconds a single case may burn. Normal cases take micro- to milliseconds.
pub const CPU_LIMIT: f64 = 25.0;

pub struct Found {
    pub part: usize,
    pub idx: usize,
    pub tape: Vec<u64>,
    pub fail: Fail,
}

fn search(
    prop: &Prop,
    pi: usize,
    cfg: &Config,
    slots: &Slots,
    stats: &Mutex<Stats>,
    known: &Mutex<BTreeMap<&'static str, String>>,
) -> Option<Found> {
    let part = &prop.parts[pi];
    let n = if cfg.thorough { part.thorough } else { part.quick };
    let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let n = ((n as f64 * scale) as usize).max(1);
    let threads = part.threads.min(n).max(1);
    let next = AtomicUsize::new(0);
    let first_bad = AtomicUsize::new(usize::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let done = AtomicBool::new(false);
    let clocks: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for t in 0..threads {
            let (next, first_bad, found, clocks) = (&next, &first_bad, &found, &clocks);
            let b = std::thread::Builder::new().stack_size(4 << 20);
            hs.push(
                b.spawn_scoped(sc, move || {
                    unsafe {
                        let mut c: libc::clockid_t = 0;
                        if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
                            clocks[t].store(c as u32 as u64, Ordering::SeqCst);
                        }
                    }
                    let mut evals = 0u64;
                    let mut distinct: HashSet<u64> = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples: Vec<(usize, Vec<u64>, String)> = Vec::new();
                    let mut max_tape = 0;
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > first_bad.load(Ordering::SeqCst) {
                            break;
                        }
                        slots.set(t, pi, i);
                        // slow cases are described in the search itself
                        let render = threads > 8 && i < 8;
                        let out = run_case(
                            part.f,
                            Src::random(case_seed(cfg.seed, prop.id, part.name, i)),
                            render,
                            cfg.thorough,
                        );
                        slots.clear(t);
                        evals += 1;
                        for l in &out.case.labels {
                            *labels.entry(l).or_insert(0) += 1;
                        }
                        max_tape = max_tape.max(out.tape.len());
                        if out.case.nontrivial {
                            distinct.insert(hash_tape(&out.tape) ^ pi as u64);
                            if samples.len() < 2 && i < 200 {
                                samples.push((i, out.tape.clone(), out.case.text.clone()));
                            }
                        }
                        for (k, v) in out.case.known {
                            known.lock().unwrap().entry(k).or_insert(v);
                        }
                        if let Err(fail) = out.res {
                            first_bad.fetch_min(i, Ordering::SeqCst);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|x| x.idx > i).unwrap_or(true) {
                                *f = Some(Found { part: pi, idx: i, tape: out.tape, fail });
                            }
                        }
                    }
                    clocks[t].store(u64::MAX, Ordering::SeqCst);
                    (evals, distinct, labels, samples, max_tape)
                })
                .unwrap(),
            );
        }
        // CPU watchdog: a case that burns far more CPU than any case can is stuck
        let (doner, clocksr) = (&done, &clocks);
        let wd = sc.spawn(move || {
            let mut last: Vec<(Option<(usize, usize)>, f64)> = vec![(None, 0.0); threads];
            while !doner.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for t in 0..threads {
                    let c = clocksr[t].load(Ordering::SeqCst);
                    if c == u64::MAX {
                        continue;
                    }
                    let cpu = thread_cpu(c as u32 as libc::clockid_t);
                    let cur = slots.get(t);
                    if cur != last[t].0 {
                        last[t] = (cur, cpu);
                    } else if cur.is_some() && cpu - last[t].1 > CPU_LIMIT {
                        eprintln!("a case has used {:.0} s of CPU", cpu - last[t].1);
                        std::process::abort();
                    }
                }
            }
        });
        let mut all = Vec::new();
        for h in hs {
            all.push(h.join().expect("harness thread"));
        }
        done.store(true, Ordering::SeqCst);
        wd.join().unwrap();
        let mut st = stats.lock().unwrap();
        let mut pe = 0;
        let mut pd = 0;
        let mut smp = Vec::new();
        for (e, d, l, s, m) in all {
            pe += e;
            for x in d {
                if st.distinct.insert(x) {
                    pd += 1;
                }
            }
            for (k, v) in l {
                *st.labels.entry(k).or_insert(0) += v;
            }
            smp.extend(s);
            st.max_tape = st.max_tape.max(m);
        }
        st.evaluations += pe;
        st.parts.push((part.name.to_string(), pe, pd));
        smp.sort();
        let take = if prop.parts.len() > 2 { 1 } else { 2 };
        for (i, t, text) in smp.into_iter().take(take) {
            let text = if text.is_empty() && threads <= 8 {
                run_case(part.f, Src::replay(t), true, cfg.thorough).case.text
            } else {
                text
            };
            st.samples.push(format!("[{} #{}] {}", part.name, i, clip(text.trim(), 1400)));
        }
    });
    found.into_inner().unwrap()
}

pub fn write_replay(
    cfg: &Config,
    prop: &Prop,
    part: &str,
    idx: usize,
    tape: &[u64],
    msg: &str,
    text: &str,
) -> String {
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-s{}-{}.replay", dir, prop.id, part, cfg.seed, idx);
    let mut s = String::new();
    let _ = writeln!(s, "property={}", prop.id);
    let _ = writeln!(s, "part={}", part);
    let _ = writeln!(s, "tier={}", if cfg.thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, "tape={}", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "message={}", msg.replace('\n', " "));
    let _ = writeln!(s, "--- case\n{}", text);
    std::fs::write(&path, s).expect("write replay");
    path
}

pub fn evidence(
    cfg: &Config,
    prop: &Prop,
    st: Option<(&u64, u64, &BTreeMap<&'static str, u64>, &Vec<(String, u64, u64)>, &Vec<String>, usize)>,
    extra: &str,
    wall: f64,
    violations: usize,
) {
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let empty_l = BTreeMap::new();
    let (e, d, l, p, s, m) = match st {
        Some(x) => (*x.0, x.1, x.2, x.3.clone(), x.4.clone(), x.5),
        None => (0, 0, &empty_l, vec![], vec![], 0),
    };
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json_str(prop.id),
        json_str(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed,
        json_str(prop.level),
        e,
        d,
        json_str(prop.rule)
    );
    let _ = write!(
        o,
        "  \"parts\": [{}],\n",
        p.iter()
            .map(|(n, a, b)| format!(
                "{{\"name\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}}}",
                json_str(n),
                a,
                b
            ))
            .collect::<Vec<_>>()
            .join(", ")
    );
    let _ = write!(
        o,
        "  \"labels\": {{{}}},\n",
        l.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(o, "  \"longest_choice_tape\": {},\n", m);
    if !extra.is_empty() {
        let _ = write!(o, "  \"note\": {},\n", json_str(extra));
    }
    let _ = write!(
        o,
        "  \"samples\": [{}]\n }},\n",
        s.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",\n   ")
    );
    let _ = write!(
        o,
        " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        prop.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    std::fs::write(format!("{}/{}.json", dir, prop.id), o).expect("write evidence");
}

/// Known findings are committed in known_findings.txt: lines `KNOWN <property> <key> <text>`.
pub fn known_list(cfg: &Config) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", cfg.verif)).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let mut it = l.split_whitespace();
            if it.next() == Some("KNOWN") {
                Some((it.next()?.to_string(), it.next()?.to_string()))
            } else {
                None
            }
        })
        .collect()
}

pub fn run(prop: &Prop, cfg: &Config) -> i32 {
    let start = Instant::now();
    let slots = Slots::open(&cfg.slots);
    let stats = Mutex::new(Stats {
        evaluations: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        parts: vec![],
        samples: vec![],
        max_tape: 0,
    });
    let known = Mutex::new(BTreeMap::new());
    let only = std::env::var("VH_PART").ok();
    let mut found = None;
    for pi in 0..prop.parts.len() {
        if only.as_deref().map(|o| o != prop.parts[pi].name).unwrap_or(false) {
            continue;
        }
        let t0 = Instant::now();
        found = search(prop, pi, cfg, &slots, &stats, &known);
        eprintln!("{} {}: {:.1}s", prop.id, prop.parts[pi].name, t0.elapsed().as_secs_f64());
        if found.is_some() {
            break;
        }
    }
    let mut code = 0;
    let mut violations = 0;
    // a finding not in the list is a violation like any other
    let listed = known_list(cfg);
    for (k, v) in known.into_inner().unwrap() {
        if listed.iter().any(|(p, key)| p == prop.id && key == k) {
            println!("KNOWN-FINDING: property={} {}: {}", prop.id, k, v);
        } else if found.is_none() {
            let path = write_replay(cfg, prop, "finding", 0, &[], &format!("{}: {}", k, v), &v);
            println!("VIOLATION property={} replay={}", prop.id, path);
            violations += 1;
            code = 1;
        }
    }
    if let Some(f) = found {
        let part = &prop.parts[f.part];
        if f.fail.harness {
            eprintln!("HARNESS ERROR {} {} #{}: {}", prop.id, part.name, f.idx, f.fail.msg);
            code = 2;
        } else {
            eprintln!("{} {} #{} fails: {}", prop.id, part.name, f.idx, clip(&f.fail.msg, 2000));
            slots.set(0, f.part, f.idx);
            // whatever happens while shrinking, there is something to replay
            let path = write_replay(cfg, prop, part.name, f.idx, &f.tape, &f.fail.msg, "(not shrunk)");
            if let Some(s) = &cfg.slots {
                let _ = std::fs::write(format!("{}.found", s), format!("{}\n{}", path, f.fail.msg));
            }
            let slow = part.threads > 8;
            let (tape, runs) = shrink(
                f.tape.clone(),
                Duration::from_secs(if slow { 1 } else { 40 }),
                if slow { 1 } else { 20000 },
                |t| {
                    let o = run_case(part.f, Src::replay(t.to_vec()), false, cfg.thorough);
                    match o.res {
                        Err(e) if !e.harness => Some(o.tape),
                        _ => None,
                    }
                },
            );
            let o = run_case(part.f, Src::replay(tape.clone()), true, cfg.thorough);
            slots.clear(0);
            let msg = match &o.res {
                Err(e) => e.msg.clone(),
                Ok(()) => f.fail.msg.clone(),
            };
            let text = format!("{}\n(shrunk in {} runs from {} to {} choices)", o.case.text, runs, f.tape.len(), tape.len());
            let path = write_replay(cfg, prop, part.name, f.idx, &tape, &msg, &text);
            eprintln!("minimal: {}\n{}", clip(&msg, 2000), clip(&o.case.text, 3000));
            println!("VIOLATION property={} replay={}", prop.id, path);
            violations += 1;
            code = 1;
        }
    }
    let st = stats.into_inner().unwrap();
    evidence(
        cfg,
        prop,
        Some((&st.evaluations, st.distinct.len() as u64, &st.labels, &st.parts, &st.samples, st.max_tape)),
        "",
        start.elapsed().as_secs_f64(),
        violations,
    );
    eprintln!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        prop.id,
        st.evaluations,
        st.distinct.len(),
        start.elapsed().as_secs_f64()
    );
    if std::env::var_os("VH_LABELS").is_some() {
        for (k, v) in &st.labels {
            eprintln!("  {:40} {}", k, v);
        }
    }
    code
}

// ------------------------------------------------------------------- crash triage (parent side)

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 30, rlim_max: 35 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
}

/// Runs one case in this process, writing each choice to `sink` before it is used.
pub fn one(prop: &Prop, part: &str, src: Result<usize, Vec<u64>>, sink: &str, cfg: &Config) -> i32 {
    limits();
    let part = prop.parts.iter().find(|p| p.name == part).expect("part");
    let mut s = match src {
        Ok(i) => Src::random(case_seed(cfg.seed, prop.id, part.name, i)),
        Err(t) => Src::replay(t),
    };
    s.sink = std::fs::File::create(sink).ok();
    let f = part.f;
    // the same small stack as in the search
    let thorough = cfg.thorough;
    let o = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || run_case(f, s, false, thorough))
        .unwrap()
        .join()
        .unwrap();
    match o.res {
        Ok(()) => 0,
        Err(e) if e.harness => 2,
        Err(_) => 1,
    }
}

fn died(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    st.signal().is_some()
}

pub fn parent(prop: &Prop, cfg: &Config) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let tmp = format!("{}/replays/tmp-{}-{}", cfg.verif, prop.id, std::process::id());
    std::fs::create_dir_all(&tmp).expect("tmp dir");
    let slots = format!("{}/slots", tmp);
    let tier = if cfg.thorough { "thorough" } else { "quick" };
    let start = Instant::now();
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(["worker", prop.id, "--tier", tier, "--seed", &cfg.seed.to_string(), "--slots", &slots]);
    let limit = if cfg.thorough { Duration::from_secs(86400) } else { Duration::from_secs(500) };
    let st = status_within(&mut cmd, limit);
    let found = std::fs::read_to_string(format!("{}.found", slots)).ok();
    let code = match (&st, found) {
        (Some(st), _) if !died(st) => match st.code() {
            Some(c @ (0 | 1)) => c,
            _ => 2,
        },
        (_, Some(f)) => {
            let (path, msg) = f.split_once('\n').unwrap_or((&f, ""));
            println!("VIOLATION property={} replay={}", prop.id, path);
            evidence(cfg, prop, None, &format!("not shrunk: {}", msg), start.elapsed().as_secs_f64(), 1);
            1
        }
        (st, None) => {
            eprintln!("{}: worker died or hung: {:?}; looking for the case", prop.id, st);
            triage(prop, cfg, &exe, &tmp, &slots, tier, start)
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

/// None: it had to be killed
fn status_within(cmd: &mut std::process::Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut ch = cmd.spawn().expect("spawn");
    let start = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return Some(st);
        }
        if start.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// How one case ends when it does not end by itself
fn death(cmd: &mut std::process::Command) -> Option<String> {
    cmd.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    match status_within(cmd, Duration::from_secs(60)) {
        Some(st) if died(&st) => Some(format!("the process dies: {:?}", st)),
        Some(_) => None,
        None => Some("the process hangs".to_string()),
    }
}

fn triage(
    prop: &Prop,
    cfg: &Config,
    exe: &std::path::Path,
    tmp: &str,
    slots: &str,
    tier: &str,
    start: Instant,
) -> i32 {
    let sl = Slots::open(&Some(slots.to_string()));
    let mut cands: Vec<(usize, usize)> = (0..MAX_THREADS).filter_map(|t| sl.get(t)).collect();
    cands.sort();
    cands.dedup();
    let read_tape = |p: &str| -> Vec<u64> {
        std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect()
    };
    let seed = cfg.seed.to_string();
    for (pi, idx) in cands {
        let part = &prop.parts[pi];
        let sink = format!("{}/sink", tmp);
        let mut cmd = std::process::Command::new(exe);
        cmd.args(["one", prop.id, part.name, "--idx", &idx.to_string(), "--sink", &sink, "--tier", tier, "--seed", &seed]);
        let Some(how) = death(&mut cmd) else { continue };
        let tape = read_tape(&sink);
        let t0 = Instant::now();
        let runs = if how.contains("hangs") { 0 } else { 400 };
        let (tape, _) = shrink(tape, Duration::from_secs(60), runs, |t| {
            if t0.elapsed() > Duration::from_secs(90) {
                return None;
            }
            let tf = format!("{}/tape", tmp);
            std::fs::write(&tf, t.iter().map(|x| format!("{}\n", x)).collect::<String>()).unwrap();
            let mut cmd = std::process::Command::new(exe);
            cmd.args(["one", prop.id, part.name, "--tape", &tf, "--sink", &sink, "--tier", tier, "--seed", &seed]);
            death(&mut cmd).map(|_| read_tape(&sink))
        });
        let msg = format!("abort, memory exhaustion or endless loop: {}", how);
        let path = write_replay(cfg, prop, part.name, idx, &tape, &msg, "(replay it to see the process die)");
        println!("VIOLATION property={} replay={}", prop.id, path);
        let s = vec![format!("{} #{}: {}", part.name, idx, msg)];
        let l = BTreeMap::new();
        let p = vec![(part.name.to_string(), idx as u64 + 1, 1)];
        evidence(cfg, prop, Some((&(idx as u64 + 1), 1, &l, &p, &s, tape.len())), &msg, start.elapsed().as_secs_f64(), 1);
        return 1;
    }
    eprintln!("HARNESS ERROR {}: the worker died but no single case reproduces it", prop.id);
    2
}
