//! What the step clock cannot see: a parse that spins without making steps, or that allocates
//! without end. Both are decided by what the parsing thread itself uses up - processor time of
//! that thread and memory it holds - so a busy machine changes nothing; the limits are far beyond
//! what any text here needs (milliseconds and a few megabytes).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

/// processor seconds of one parse
const CPU_LIMIT: i64 = 40;
/// bytes held by one parse
const MEM_LIMIT: isize = 1 << 30;
/// slot value for the fixed cases
pub const FIXED: u64 = u64::MAX - 1;
const NONE: u64 = u64::MAX;
const SLOTS: usize = 8;

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
}

struct Slot {
    case: AtomicU64,
    /// counts the parses of this worker; odd while one is under way
    turn: AtomicU64,
    clock: AtomicU64,
    greedy: AtomicBool,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { case: AtomicU64::new(NONE), turn: AtomicU64::new(0), clock: AtomicU64::new(0), greedy: AtomicBool::new(false) };
static TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
static FILE: OnceLock<std::fs::File> = OnceLock::new();
static WATCHED: AtomicBool = AtomicBool::new(false);
static LAST: Mutex<()> = Mutex::new(());

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static NET: Cell<isize> = const { Cell::new(0) };
    static IN: Cell<bool> = const { Cell::new(false) };
}

pub struct Counting;
#[global_allocator]
static ALLOC: Counting = Counting;

fn count(n: isize) {
    let _ = IN.try_with(|i| {
        if i.get() {
            let _ = NET.try_with(|c| {
                c.set(c.get() + n);
                if c.get() > MEM_LIMIT {
                    stop_here();
                }
            });
        }
    });
}

#[cold]
fn stop_here() {
    if !WATCHED.load(Ordering::Relaxed) {
        return;
    }
    let _ = ME.try_with(|m| {
        if let Some(s) = TABLE.get(m.get()) {
            s.greedy.store(true, Ordering::SeqCst);
            // the watch ends the process
            loop {
                std::thread::park();
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// the calling thread is worker k
pub fn worker(k: usize) {
    ME.with(|m| m.set(k));
    let mut c = 0i32;
    if let Some(s) = TABLE.get(k) {
        unsafe {
            if pthread_getcpuclockid(pthread_self(), &mut c) == 0 {
                s.clock.store(c as u32 as u64 | 1 << 40, Ordering::SeqCst);
            }
        }
    }
}

/// the worker starts on a case
pub fn case(i: u64) {
    let k = ME.with(|m| m.get());
    if let Some(s) = TABLE.get(k) {
        s.case.store(i, Ordering::SeqCst);
        if let Some(f) = FILE.get() {
            let _ = f.write_at(&i.to_le_bytes(), k as u64 * 8);
        }
    }
}

pub fn begin() {
    if let Some(s) = TABLE.get(ME.with(|m| m.get())) {
        s.turn.fetch_or(1, Ordering::SeqCst);
        NET.with(|n| n.set(0));
        IN.with(|i| i.set(true));
    }
}
pub fn end() {
    IN.with(|i| i.set(false));
    if let Some(s) = TABLE.get(ME.with(|m| m.get())) {
        let t = s.turn.load(Ordering::SeqCst);
        if t & 1 == 1 {
            s.turn.store(t + 1, Ordering::SeqCst);
        }
    }
}

fn file(id: &str, root: &str) -> String {
    format!("{}/evidence/.underway-{}", root, id)
}

/// the cases that were under way when the process ended
pub fn slots(id: &str, root: &str) -> Vec<u64> {
    let f = file(id, root);
    let b = std::fs::read(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    let mut v: Vec<u64> = b
        .chunks_exact(8)
        .map(|c| {
            let mut a = [0u8; 8];
            a.copy_from_slice(c);
            u64::from_le_bytes(a)
        })
        .filter(|x| *x != NONE)
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}

pub type Report = Box<dyn Fn(u64, &str) -> String + Send>;

/// Watch the workers from a thread of its own.
pub fn start(id: &str, root: &str, report: Report) {
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Ok(f) = std::fs::File::create(file(id, root)) {
        let _ = f.write_at(&[0xff; SLOTS * 8], 0);
        let _ = FILE.set(f);
    }
    WATCHED.store(true, Ordering::SeqCst);
    std::thread::spawn(move || {
        // the turn last seen and the processor time at that moment
        let mut seen = [(0u64, 0i64); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (k, s) in TABLE.iter().enumerate() {
                let turn = s.turn.load(Ordering::SeqCst);
                if s.greedy.load(Ordering::SeqCst) {
                    done(&report, s, "the parser takes memory without end");
                }
                let c = s.clock.load(Ordering::SeqCst);
                if turn & 1 == 0 || c == 0 {
                    seen[k].0 = 0;
                    continue;
                }
                let mut ts = [0i64; 2];
                if unsafe { clock_gettime(c as u32 as i32, &mut ts) } != 0 {
                    continue;
                }
                if seen[k].0 != turn {
                    seen[k] = (turn, ts[0]);
                } else if ts[0] - seen[k].1 > CPU_LIMIT && s.turn.load(Ordering::SeqCst) == turn {
                    done(&report, s, "the parser does not come to an end (no steps, but 40 s of processor time)");
                }
            }
        }
    });
}

fn done(report: &Report, s: &Slot, why: &str) -> ! {
    let _one = LAST.lock();
    println!("{}", report(s.case.load(Ordering::SeqCst), why));
    std::process::exit(1);
}
