//! A deterministic clock for the parser: RESSA traces its way through the grammar with `log`, so
//! every log record is a step. A parse that makes far more steps than its text can need is stuck.
//! (Wall-clock time is never used to decide anything; see watch.rs for what makes no steps.)
use std::cell::Cell;

thread_local! {
    static LEFT: Cell<u64> = Cell::new(u64::MAX);
    static BASE: Cell<usize> = Cell::new(0);
    static MADE: Cell<u64> = Cell::new(0);
}

/// the workers have stacks of 512 MB or more
const DEEPEST: usize = 400 << 20;
pub const DEEP: &str = "the parser recurses without end";
pub const STUCK: &str = "the parser does not come to an end (step budget used up)";

struct Clock;

impl log::Log for Clock {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, _: &log::Record<'_>) {
        MADE.with(|m| m.set(m.get() + 1));
        let l = LEFT.with(|l| l.get());
        if l == 0 {
            LEFT.with(|l| l.set(u64::MAX));
            panic!("{}", STUCK);
        }
        LEFT.with(|x| x.set(l - 1));
        let here = &l as *const u64 as usize;
        let base = BASE.with(|b| b.get());
        if base != 0 && base.saturating_sub(here) > DEEPEST {
            BASE.with(|b| b.set(0));
            panic!("{}", DEEP);
        }
    }
    fn flush(&self) {}
}

static CLOCK: Clock = Clock;

pub fn install() {
    let _ = log::set_logger(&CLOCK);
    log::set_max_level(log::LevelFilter::Debug);
}

/// Steps a text of `len` bytes may take: far above what the deepest
/// expression chains need.
pub fn budget(len: usize) -> u64 {
    50_000 + 300 * len as u64
}

/// Run with a budget.
pub fn within<R>(len: usize, f: impl FnOnce() -> R) -> R {
    LEFT.with(|l| l.set(budget(len)));
    MADE.with(|m| m.set(0));
    let here = len;
    BASE.with(|b| b.set(&here as *const usize as usize));
    crate::watch::begin();
    let r = f();
    crate::watch::end();
    BASE.with(|b| b.set(0));
    LEFT.with(|l| l.set(u64::MAX));
    r
}

pub fn made() -> u64 {
    MADE.with(|m| m.get())
}

static WORST: std::sync::Mutex<(u64, usize)> = std::sync::Mutex::new((0, 1));
/// remember the most steps in proportion to the text
pub fn note(steps: u64, len: usize) {
    let mut w = WORST.lock().unwrap();
    if steps as f64 / (len + 40) as f64 > w.0 as f64 / (w.1 + 40) as f64 {
        *w = (steps, len);
        if std::env::var("VERIF_STEPS").is_ok() {
            eprintln!("{} steps for {} bytes", steps, len);
        }
    }
}
