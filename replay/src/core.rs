//! Runner: deterministic cases, per-property failures, hang/abort attribution, allocation peaks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Counting;
thread_local! { static LIVE: Cell<isize> = const { Cell::new(0) }; static PEAK: Cell<isize> = const { Cell::new(0) }; }
fn add(n: isize) { let _ = LIVE.try_with(|l| { l.set(l.get() + n); let _ = PEAK.try_with(|p| if l.get() > p.get() { p.set(l.get()) }); }); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as isize - l.size() as isize); System.realloc(p, l, n) }
}
/// Runs f and returns the peak of additional live bytes on this thread.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let pk = PEAK.with(|p| p.get());
    (r, (pk - base).max(0) as usize)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s ^ 0x9E3779B97F4A7C15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn key(&mut self) -> [u8; 4] { if self.one_in(8) { [0; 4] } else { let n = self.next(); [n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8] } }
}

pub struct Cx { pub want: String, pub r: Rng, pub fails: Vec<String>, pub other: usize, hash: u64, pub thorough: bool, pub trace: Vec<String> }
impl Cx {
    pub fn ck(&mut self, prop: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !ok { if self.want == "*" || prop.split('|').any(|p| p == self.want) { if self.fails.len() < 4 { self.fails.push(format!("[{}] {}", prop, msg())) } } else { self.other += 1 } }
        ok
    }
    pub fn note(&mut self, x: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash.hash(&mut h); x.hash(&mut h); self.hash = h.finish();
    }
    /// extra text shown when a case fails
    pub fn tr(&mut self, s: impl FnOnce() -> String) { if self.trace.len() < 24 { let t = s(); self.trace.push(t.chars().take(600).collect()) } }
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(160).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 160 { s.push_str(&format!("…({} bytes)", b.len())) }
    s
}

pub struct Section { pub name: &'static str, pub props: &'static [&'static str], pub quick: u64, pub thorough: u64, pub rule: &'static str, pub f: fn(&mut Cx, u64) }

pub fn run_case(s: &Section, want: &str, seed: u64, case: u64, thorough: bool) -> (Vec<String>, u64, Vec<String>) {
    let mut hs = std::collections::hash_map::DefaultHasher::new();
    (s.name, seed, case).hash(&mut hs);
    let mut cx = Cx { want: want.into(), r: Rng::new(hs.finish()), fails: vec![], other: 0, hash: 0, thorough, trace: vec![] };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(&mut cx, case)));
    if let Err(e) = res {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        let loc = LASTPANIC.with(|l| l.take());
        cx.fails.push(format!("[panic] {} at {}", m, loc.unwrap_or_default()));
    }
    (cx.fails, cx.hash, cx.trace)
}
thread_local! { static LASTPANIC: Cell<Option<String>> = const { Cell::new(None) }; }
pub fn hook() {
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())); let _ = LASTPANIC.try_with(|p| p.set(l)); }));
}

pub struct Report { pub evaluations: u64, pub distinct: u64, pub sections: Vec<(String, u64, u64)>, pub samples: Vec<String>, pub failure: Option<Failure> }
#[derive(Clone)]
pub struct Failure { pub section: String, pub case: u64, pub msgs: Vec<String>, pub trace: Vec<String> }

pub fn run(secs: &[Section], want: &str, seed: u64, thorough: bool, slots: &std::path::Path, threads: usize, hang_s: u64) -> Report {
    use std::os::unix::fs::FileExt;
    hook();
    let f = Arc::new(std::fs::OpenOptions::new().create(true).write(true).read(true).truncate(true).open(slots).unwrap());
    let mut rep = Report { evaluations: 0, distinct: 0, sections: vec![], samples: vec![], failure: None };
    for (si, s) in secs.iter().enumerate() {
        if want != "*" && !s.props.contains(&want) { continue; }
        let n = if thorough { s.thorough } else { s.quick };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let done = AtomicU64::new(0);
        let alive = AtomicUsize::new(threads);
        let fail: Mutex<Option<Failure>> = Mutex::new(None);
        let samp: Mutex<Vec<String>> = Mutex::new(vec![]);
        let cur: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let t0 = std::time::Instant::now();
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop, seen, done, fail, cur, f, alive, samp) = (&next, &stop, &seen, &done, &fail, &cur, f.clone(), &alive, &samp);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut local = HashSet::new();
                    loop {
                        let c = next.fetch_add(1, SeqCst);
                        if c >= n || stop.load(SeqCst) { break; }
                        cur[t].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                        cur[t].0.store(c, SeqCst);
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes()); b[8..].copy_from_slice(&c.to_le_bytes());
                        let _ = f.write_at(&b, 16 * t as u64);
                        let (fails, h, trace) = run_case(s, want, seed, c, thorough);
                        done.fetch_add(1, SeqCst);
                        if h != 0 { local.insert(h); }
                        if c < 3 { samp.lock().unwrap().push(format!("{}#{}: {}", s.name, c, trace.join("; ").chars().take(300).collect::<String>())) }
                        if !fails.is_empty() {
                            let mut g = fail.lock().unwrap();
                            if g.as_ref().map_or(true, |x| c < x.case) { *g = Some(Failure { section: s.name.into(), case: c, msgs: fails, trace }) }
                            stop.store(true, SeqCst);
                            break;
                        }
                    }
                    cur[t].0.store(u64::MAX, SeqCst);
                    let _ = f.write_at(&[0u8; 16], 16 * t as u64);
                    seen.lock().unwrap().extend(local);
                    alive.fetch_sub(1, SeqCst);
                }).unwrap();
            }
            while alive.load(SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for t in 0..threads {
                    let c = cur[t].0.load(SeqCst);
                    if c != u64::MAX && now > cur[t].1.load(SeqCst) + hang_s * 1000 && cur[t].0.load(SeqCst) == c {
                        println!("HANG {} {}", s.name, c);
                        std::process::exit(4);
                    }
                }
            }
        });
        rep.evaluations += done.load(SeqCst);
        let d = seen.lock().unwrap().len() as u64;
        rep.distinct += d;
        rep.sections.push((s.name.into(), done.load(SeqCst), d));
        rep.samples.extend(samp.into_inner().unwrap().into_iter().take(2));
        if let Some(x) = fail.into_inner().unwrap() { rep.failure = Some(x); break; }
    }
    rep
}
