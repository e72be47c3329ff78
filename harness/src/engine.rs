//! Cases, workers, shrinking, evidence and replay files.
use crate::drive::clip;
use crate::tape::Tape;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Case {
    /// what was given to the parser
    pub input: String,
    /// does the case exercise the property (see the rule)
    pub nontrivial: bool,
    /// None: held. Some: what went wrong
    pub fail: Option<String>,
    /// sub-checks made
    pub checks: u32,
}

pub enum Outcome {
    Done(Case),
    Discard(&'static str),
}

pub type Check = fn(&mut Tape) -> Outcome;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub check: Check,
    /// fixed cases that always run first: (input, failure)
    pub fixed: fn() -> Vec<Case>,
}

pub fn no_fixed() -> Vec<Case> {
    vec![]
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Shared {
    seen: HashSet<u64>,
    evaluations: usize,
    checks: u64,
    discards: BTreeMap<&'static str, usize>,
    feats: BTreeMap<&'static str, usize>,
    samples: Vec<(usize, String)>,
    fails: Vec<(usize, Vec<u32>, String, String)>,
    harness_errors: Vec<String>,
    max_len: usize,
    total_len: usize,
}

thread_local! {
    static AT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn panicked_at(s: String) {
    let _ = AT.try_with(|a| *a.borrow_mut() = s);
}
fn run_tape(check: Check, t: &mut Tape) -> Result<Outcome, String> {
    match catch_unwind(AssertUnwindSafe(|| check(t))) {
        Ok(x) => Ok(x),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        } + " at " + &AT.with(|a| a.borrow().clone())),
    }
}

fn fails(check: Check, rec: &[u32]) -> Option<(Vec<u32>, Case)> {
    let mut t = Tape::replay(rec.to_vec());
    match run_tape(check, &mut t) {
        Ok(Outcome::Done(c)) if c.fail.is_some() => {
            let mut r = rec.to_vec();
            r.truncate(t.used());
            Some((r, c))
        }
        _ => None,
    }
}

/// Edit the tape while it keeps failing.
pub fn shrink(check: Check, rec: Vec<u32>, case: Case) -> (Vec<u32>, Case) {
    let mut best = rec;
    let mut bc = case;
    let start = Instant::now();
    let mut evals = 0;
    let better = |a: &(Vec<u32>, Case), best: &Vec<u32>, bc: &Case| -> bool {
        let ka = (a.1.input.len(), a.0.len(), a.0.iter().map(|x| u64::from(*x)).sum::<u64>());
        let kb = (bc.input.len(), best.len(), best.iter().map(|x| u64::from(*x)).sum::<u64>());
        ka < kb
    };
    if let Some(x) = fails(check, &best) {
        best = x.0;
        bc = x.1;
    }
    let mut improved = std::env::var_os("DEV_DIV").is_none();
    while improved && evals < 20_000 && start.elapsed().as_secs() < 25 {
        improved = false;
        // delete blocks
        let mut size = best.len() / 2;
        while size > 0 {
            let mut i = 0;
            while i + size <= best.len() {
                evals += 1;
                let mut c = best.clone();
                c.drain(i..i + size);
                match fails(check, &c) {
                    Some(x) if better(&x, &best, &bc) => {
                        best = x.0;
                        bc = x.1;
                        improved = true;
                    }
                    _ => i += (size / 2).max(1),
                }
                if evals > 20_000 || start.elapsed().as_secs() > 25 {
                    return (best, bc);
                }
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)].iter() {
                if i < best.len() && *v < best[i] {
                    evals += 1;
                    let mut c = best.clone();
                    c[i] = *v;
                    if let Some(x) = fails(check, &c) {
                        if better(&x, &best, &bc) {
                            best = x.0;
                            bc = x.1;
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
            if evals > 20_000 || start.elapsed().as_secs() > 25 {
                return (best, bc);
            }
        }
    }
    (best, bc)
}

pub struct Report {
    pub violations: usize,
    pub lines: Vec<String>,
    pub error: Option<String>,
}

/// the seed of the i-th case of a run
fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    (hash(id) ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95))
}

/// A case that cannot be seen through to its end here: hung, or ended the process.
pub fn lost_case(p: &Prop, seed: u64, i: u64, root: &str, why: &str) -> String {
    let (body, path);
    let _ = std::fs::create_dir_all(format!("{}/evidence/replays", root));
    if i == crate::watch::FIXED {
        body = format!("{{\"property\":{},\"kind\":\"fixed\",\"tape\":[],\"input\":\"\",\"what\":{}}}\n", json(p.id), json(why));
        path = format!("{}/evidence/replays/{}-fixed.json", root, p.id);
    } else {
        let s = case_seed(p.id, seed, i);
        body = format!("{{\"property\":{},\"kind\":\"seed\",\"seed\":{},\"what\":{}}}\n", json(p.id), s, json(why));
        path = format!("{}/evidence/replays/{}-seed-{:016x}.json", root, p.id, s);
    }
    let _ = std::fs::write(&path, body);
    format!("VIOLATION property={} replay={}\n  {}", p.id, path, why)
}

/// Run one case on its own, to see whether it gets to its end.
pub fn one(p: &Prop, seed: u64, i: u64) {
    crate::watch::worker(0);
    crate::watch::case(i);
    if i == crate::watch::FIXED {
        let _ = (p.fixed)();
    } else {
        let _ = run_tape(p.check, &mut Tape::random(case_seed(p.id, seed, i)));
    }
}

pub fn run(p: &Prop, tier: &str, seed: u64, root: &str, known: &[(String, String)]) -> Report {
    let t0 = Instant::now();
    let mut n = if tier == "thorough" { p.thorough } else { p.quick };
    // a development aid (tools/mutate.py); the registered commands never set it
    if let Some(d) = std::env::var("DEV_DIV").ok().and_then(|d| d.parse::<usize>().ok()) {
        n /= d.max(1);
    }
    let sh = Mutex::new(Shared::default());
    let next = AtomicUsize::new(0);
    let stop_at = AtomicUsize::new(usize::MAX);
    let threads = 8;
    let mut fixed_fails = vec![];
    let fixed_n;
    {
        // fixed cases, on a thread with a big stack
        let f = p.fixed;
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            crate::watch::worker(0);
            crate::watch::case(crate::watch::FIXED);
            f()
        }).unwrap();
        match h.join() {
            Ok(cs) => {
                fixed_n = cs.len();
                let mut s = sh.lock().unwrap();
                for mut c in cs {
                    s.evaluations += 1;
                    s.checks += u64::from(c.checks);
                    if c.nontrivial {
                        s.seen.insert(hash(&c.input));
                    }
                    if let Some(f) = c.fail.take() {
                        fixed_fails.push((c.input, f));
                    }
                }
            }
            Err(_) => return Report { violations: 0, lines: vec![], error: Some("a fixed case ended the harness".to_string()) },
        }
    }
    crossbeam_scope(threads, 1 << 29, &|k| {
        crate::watch::worker(k);
        let mut local = Shared::default();
        loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= n || i > stop_at.load(Ordering::Relaxed) {
                break;
            }
            crate::watch::case(i as u64);
            let mut t = Tape::random(case_seed(p.id, seed, i as u64));
            match run_tape(p.check, &mut t) {
                Ok(Outcome::Discard(r)) => *local.discards.entry(r).or_insert(0) += 1,
                Ok(Outcome::Done(c)) => {
                    local.evaluations += 1;
                    local.checks += u64::from(c.checks);
                    local.max_len = local.max_len.max(c.input.len());
                    local.total_len += c.input.len();
                    if c.nontrivial {
                        local.seen.insert(hash(&c.input));
                        if local.samples.len() < 40 && c.input.len() > 10 && c.input.len() < 400 {
                            local.samples.push((i, c.input.clone()));
                        }
                    }
                    t.feats.sort_unstable();
                    t.feats.dedup();
                    for f in t.feats.iter() {
                        *local.feats.entry(f).or_insert(0) += 1;
                    }
                    if let Some(f) = c.fail.clone() {
                        if known.iter().any(|(id, inp)| id == p.id && *inp == c.input) {
                            continue;
                        }
                        local.fails.push((i, t.rec.clone(), c.input, f));
                        // finish what is below the first failure, for a deterministic report
                        stop_at.fetch_min(i, Ordering::Relaxed);
                    }
                }
                Err(e) => local.harness_errors.push(format!("case {}: {}", i, e)),
            }
        }
        let mut s = sh.lock().unwrap();
        s.evaluations += local.evaluations;
        s.checks += local.checks;
        s.seen.extend(local.seen);
        for (k, v) in local.discards {
            *s.discards.entry(k).or_insert(0) += v;
        }
        for (k, v) in local.feats {
            *s.feats.entry(k).or_insert(0) += v;
        }
        s.samples.extend(local.samples);
        s.fails.extend(local.fails);
        s.harness_errors.extend(local.harness_errors);
        s.max_len = s.max_len.max(local.max_len);
        s.total_len += local.total_len;
    });
    let mut s = sh.into_inner().unwrap();
    let mut lines = vec![];
    let mut vio = vec![];
    s.fails.sort_by_key(|f| f.0);
    let _ = std::fs::create_dir_all(format!("{}/evidence/replays", root));
    for (input, why) in fixed_fails {
        if known.iter().any(|(id, inp)| id == p.id && *inp == input) {
            continue;
        }
        let path = format!("{}/evidence/replays/{}-{:016x}.json", root, p.id, hash(&input));
        let body = format!("{{\"property\":{},\"kind\":\"fixed\",\"tape\":[],\"input\":{},\"what\":{}}}\n", json(p.id), json(&input), json(&why));
        let _ = std::fs::write(&path, body);
        lines.push(format!("VIOLATION property={} replay={}", p.id, path));
        lines.push(format!("  input: {}", clip(&format!("{:?}", input), 400)));
        lines.push(format!("  {}", clip(&why, 1200)));
        vio.push((input, why));
        if vio.len() >= 3 {
            break;
        }
    }
    if let Some((_, rec, input, why)) = s.fails.first().cloned() {
        let c = Case { input, nontrivial: true, fail: Some(why), checks: 0 };
        let check = p.check;
        let first = s.fails[0].0 as u64;
        let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
            // should it get stuck on the way down, the case to report is the one it started from
            crate::watch::worker(0);
            crate::watch::case(first);
            shrink(check, rec, c)
        }).unwrap();
        if let Ok((rec, c)) = h.join() {
            let why = c.fail.clone().unwrap_or_default();
            let path = format!("{}/evidence/replays/{}-{:016x}.json", root, p.id, hash(&c.input));
            let tape: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
            let body = format!(
                "{{\"property\":{},\"kind\":\"tape\",\"tape\":[{}],\"input\":{},\"what\":{}}}\n",
                json(p.id),
                tape.join(","),
                json(&c.input),
                json(&why)
            );
            let _ = std::fs::write(&path, body);
            lines.push(format!("VIOLATION property={} replay={}", p.id, path));
            lines.push(format!("  input: {}", clip(&format!("{:?}", c.input), 400)));
            lines.push(format!("  {}", clip(&why, 1200)));
            vio.push((c.input, why));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    s.samples.sort();
    let step = (s.samples.len() / 12).max(1);
    let samples: Vec<String> = s.samples.iter().step_by(step).take(12).map(|x| json(&x.1)).collect();
    let feats: Vec<String> = s.feats.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect();
    let disc: Vec<String> = s.discards.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect();
    let vios: Vec<String> = vio.iter().map(|(i, w)| format!("{{\"input\":{},\"what\":{}}}", json(&clip(i, 2000)), json(&clip(w, 2000)))).collect();
    let avg = if s.evaluations > 0 { s.total_len / s.evaluations } else { 0 };
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"parser_checks\":{},\"fixed_cases\":{},\"discarded\":{{{}}},\"features\":{{{}}},\"average_input_bytes\":{},\"largest_input_bytes\":{}}},\"wall_s\":{:.2},\"violations\":{}}}\n",
        json(p.id), json(tier), seed, s.evaluations, s.seen.len(), json(p.rule), samples.join(","), s.checks, fixed_n, disc.join(","), feats.join(","), avg, s.max_len, wall, vio.len()
    );
    let _ = vios;
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, p.id), ev) {
        return Report { violations: vio.len(), lines, error: Some(format!("cannot write evidence: {}", e)) };
    }
    let d: usize = s.discards.values().sum();
    lines.push(format!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {} parser checks, {} bytes on average, {:.1} s",
        p.id,
        s.evaluations,
        s.seen.len(),
        d,
        s.checks,
        avg,
        wall
    ));
    let mut error = None;
    if !s.harness_errors.is_empty() {
        error = Some(format!("{} harness errors, first: {}", s.harness_errors.len(), s.harness_errors[0]));
    } else if vio.is_empty() && (s.seen.len() < n / 10 || d > n) {
        error = Some("too few cases got through: the generator no longer fits".to_string());
    }
    Report { violations: vio.len(), lines, error }
}

fn crossbeam_scope(threads: usize, stack: usize, f: &(dyn Fn(usize) + Sync)) {
    // the workers are joined before this returns, so the borrow is good
    let f: &'static (dyn Fn(usize) + Sync) = unsafe { std::mem::transmute(f) };
    let hs: Vec<_> = (0..threads)
        .map(|k| std::thread::Builder::new().stack_size(stack).spawn(move || f(k)).unwrap())
        .collect();
    for h in hs {
        let _ = h.join();
    }
}
