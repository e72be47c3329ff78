#![allow(dead_code, clippy::all, function_casts_as_integer)]
mod c02;
mod drive;
mod engine;
mod errs;
mod gen;
mod meta;
mod missing;
mod plants;
mod pos;
mod props;
mod soup;
mod steps;
mod strict;
mod tape;
mod tok;
mod tol;
mod watch;

use engine::{no_fixed, Prop};

fn table() -> Vec<Prop> {
    macro_rules! p {
        ($id:expr, $quick:expr, $f:expr, $rule:expr) => {
            Prop { id: $id, rule: $rule, quick: $quick, thorough: $quick * 20, check: $f, fixed: no_fixed }
        };
    }
    vec![
        p!("C01", 100_000, props::c01, "expression programs derived from the grammar together with their tree; non-trivial: at least six tokens"),
        Prop {
            id: "C02",
            rule: "operator sequences (every pair and triple of operators first, then random ones up to dozens of operands) against a reference precedence climber, also with every operation parenthesised; non-trivial: at least two operators",
            quick: 150_000,
            thorough: 3_000_000,
            check: c02::c02,
            fixed: c02::c02_fixed,
        },
        p!("C03", 100_000, props::c03, "statement programs derived from the grammar together with their tree; non-trivial: contains a compound or jump statement"),
        p!("C04", 100_000, props::c04, "function-heavy programs derived from the grammar together with their tree; non-trivial: contains a function, an arrow or async"),
        p!("C05", 100_000, props::c05, "class- and object-heavy programs derived from the grammar together with their tree; non-trivial: contains a class or an object literal"),
        p!("C06", 100_000, props::c06, "pattern-heavy programs derived from the grammar together with their tree; non-trivial: contains a binding or assignment pattern"),
        p!("C07", 100_000, props::c07, "module-heavy programs derived from the grammar together with their tree; non-trivial: a module with an import or export, or a script"),
        p!("C08", 100_000, props::c08, "literal- and directive-heavy programs derived from the grammar together with their tree; non-trivial: contains a string, number, regex or template"),
        p!("C09", 100_000, meta::c09, "programs with semicolons left out where insertion supplies them (with every line terminator and comments), line terminators in restricted productions, and joined statements that must be rejected; non-trivial: at least one semicolon left out or one restricted production"),
        p!("C10", 60_000, meta::c10, "token sequences in the one-line layout and two random layouts; non-trivial: the layouts differ"),
        p!("C11", 80_000, meta::c11, "programs with recorded comments in every gap; non-trivial: at least two comments"),
        Prop {
            id: "C12",
            rule: "pairs of programs, programs in nested wrappers, and sensitive probes after a program; non-trivial: all",
            quick: 60_000,
            thorough: 1_500_000,
            check: meta::c12,
            fixed: meta::c12_fixed,
        },
        p!("C13", 40_000, meta::c13, "valid and mutated programs through every constructor, setter order and stepping; non-trivial: at least six tokens"),
        p!("C14", 80_000, tol::c14, "valid programs and edited texts with and without tolerance (same tree; same items up to the first error), getters and setters with a wrong parameter list against the same as a method, strict-only violations in strict code against the same code in sloppy code; non-trivial: something was parsed"),
        p!("C15", 100_000, errs::c15, "programs with one early error planted at a random place, and the same program with the corrected construct; non-trivial: all"),
        p!("C16", 100_000, strict::c16, "strict-mode errors planted in strict code (rejected, with an accepted twin) and the same text planted in sloppy code (accepted); directives that come too late, in time, or only look like one; non-trivial: all"),
        p!("C17", 100_000, errs::c17, "programs with a construct that lacks a required token (and the complete twin), cut off inside an open construct, or with a bracket removed, added, exchanged or out of order; non-trivial: all"),
        p!("C18", 100_000, pos::c18, "programs with a closing bracket that closes nothing, an impossible token after an operator or keyword, or a cut, in every layout; the error must stand at that token according to an independent line counter; non-trivial: not on the first line"),
        p!("C19", 100_000, meta::c19, "programs with contextual keywords as names, and renaming of a plain name; non-trivial: a contextual name occurs"),
        p!("C20", 24_000, soup::c20, "edited programs, random token sequences, nesting and repetition of every construct and edited texts, in all four modes, by parse and item by item past the end; non-trivial: more than four bytes"),
    ]
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::panic::set_hook(Box::new(|i| engine::panicked_at(i.location().map(|l| l.to_string()).unwrap_or_default())));
    steps::install();
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(a)).unwrap();
    let code = match h.join() {
        Ok(c) => c,
        Err(_) => {
            println!("harness panicked");
            3
        }
    };
    std::process::exit(code);
}

fn real(a: Vec<String>) -> i32 {
    match a.get(1).map(|s| s.as_str()) {
        Some("dump") => {
            let n: u64 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let p = gen::Profile::base();
            for i in 0..n {
                let mut t = tape::Tape::random(seed * 1_000_000 + i);
                let g = gen::program(&mut t, &p);
                let r = tok::Layout::new(&mut t).render(&g.toks);
                println!("{{\"m\":{},\"s\":{}}}", g.module, engine::json(&r.src));
            }
            0
        }
        Some("edits") => {
            // slightly edited small programs, and what the parser says: to compare with another parser
            let n: u64 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let mut p = gen::Profile::base();
            p.fuel = (1, 10);
            p.items = (1, 2);
            p.modules = 3;
            for i in 0..n {
                let mut t = tape::Tape::random(seed * 1_000_000_000 + i);
                p.ctxt = (i % 8) as u32;
                let g = gen::program(&mut t, &p);
                let mut toks = g.toks;
                soup::mutate(&mut t, &mut toks, &[]);
                let mut s = String::new();
                for k in &toks {
                    s.push_str(&k.s);
                    s.push_str(if i % 3 == 0 && t.below(6) == 0 { "\n" } else { " " });
                }
                let r = drive::parse(&s, g.module);
                println!("{{\"m\":{},\"s\":{},\"r\":{}}}", g.module, engine::json(&s), engine::json(&r.short()));
            }
            0
        }
        Some("discards") => {
            // look at what the scanner splits differently
            let n: u64 = a[2].parse().unwrap();
            let mut p = gen::Profile::base();
            p = p.up_e(&[gen::STR, gen::NUM, gen::REGEX, gen::TEMPLATE, gen::TAGGED], 8);
            p.fuel = (3, 12);
            for i in 0..n {
                let mut t = tape::Tape::random(i);
                let g = gen::program(&mut t, &p);
                let r = tok::plain(&g.toks);
                if !drive::scans(&r, &g.toks) && r.src.len() < 80 {
                    println!("{:?}", r.src);
                }
            }
            0
        }
        Some("list") => {
            for p in table() {
                println!("{} {}", p.id, p.rule);
            }
            0
        }
        Some("rows") => {
            errs::rows(a.get(2).map(|s| s.as_str()).unwrap_or(""));
            0
        }
        Some("run") => supervise(&a),
        Some("one") => {
            let tab = table();
            if let Some(p) = tab.iter().find(|p| p.id == a[2]) {
                engine::one(p, a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(0));
            }
            0
        }
        Some("work") => {
            let id = a[2].as_str();
            let tier = a[3].as_str();
            let seed: u64 = a[4].parse().unwrap_or(1);
            let root = a[5].as_str();
            let tab = table();
            let p = match tab.iter().find(|p| p.id == id) {
                Some(p) => p,
                None => {
                    println!("no such property {}", id);
                    return 3;
                }
            };
            watch::start(p.id, root, {
                let root = root.to_string();
                let id = p.id.to_string();
                Box::new(move |i, why| {
                    let tab = table();
                    tab.iter().find(|p| p.id == id).map(|p| engine::lost_case(p, seed, i, &root, why)).unwrap_or_default()
                })
            });
            let known = known(root);
            for (k, what, _) in known.iter().filter(|k| k.0 == p.id) {
                println!("KNOWN-FINDING: property={} {}", k, what);
            }
            let known: Vec<(String, String)> = known.into_iter().map(|k| (k.0, k.2)).collect();
            let rep = engine::run(p, tier, seed, root, &known);
            for l in &rep.lines {
                println!("{}", l);
            }
            if rep.violations > 0 {
                return 1;
            }
            if let Some(e) = rep.error {
                println!("ERROR {}", e);
                return 3;
            }
            0
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).unwrap_or_default();
            replay(&text)
        }
        _ => {
            println!("usage: harness run ID TIER SEED ROOT | replay FILE | dump N SEED");
            3
        }
    }
}

/// Run the check in a process of its own, so that a parse that takes the process down is seen.
fn supervise(a: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let me = std::env::current_exe().unwrap();
    let (id, seed, root) = (a[2].as_str(), a[4].parse().unwrap_or(1), a[5].as_str());
    let st = match std::process::Command::new(&me).arg("work").args(&a[2..6]).status() {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR {}", e);
            return 3;
        }
    };
    let slots = watch::slots(id, root);
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    println!("the process was ended by signal {}", sig);
    if sig != 11 && sig != 6 && sig != 7 && sig != 8 && sig != 4 {
        return 3;
    }
    let tab = table();
    let p = match tab.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 3,
    };
    for i in slots {
        let r = std::process::Command::new(&me).arg("one").arg(id).arg(seed.to_string()).arg(i.to_string()).stderr(std::process::Stdio::null()).status();
        if let Ok(r) = r {
            if r.signal() == Some(sig) {
                println!("{}", engine::lost_case(p, seed, i, root, &format!("the parser takes the process down (signal {})", sig)));
                return 1;
            }
        }
    }
    println!("ERROR none of the cases under way does it again");
    3
}

/// Findings that are recorded and not repaired: `known: property=ID input="..." what`.
fn known(root: &str) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut r = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            if let Some(i) = rest.find(" input=\"") {
                let id = rest[..i].to_string();
                if let Some((input, after)) = unjson(&rest[i + 7..]) {
                    r.push((id, after.trim().to_string(), input));
                }
            }
        }
    }
    r
}

/// A JSON string at the start of the text, and what follows it.
fn unjson(s: &str) -> Option<(String, String)> {
    let mut it = s.chars();
    if it.next() != Some('"') {
        return None;
    }
    let mut o = String::new();
    loop {
        match it.next()? {
            '"' => return Some((o, it.collect())),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(std::char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
}

/// Run one recorded failure again.
fn replay(text: &str) -> i32 {
    let after = |k: &str| text.find(k).map(|i| &text[i + k.len()..]);
    let id = match after("\"property\":").and_then(unjson) {
        Some(x) => x.0,
        None => {
            println!("not a replay file");
            return 3;
        }
    };
    let tab = table();
    let p = match tab.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 3,
    };
    let input = after("\"input\":").and_then(unjson).map(|x| x.0).unwrap_or_default();
    let case = if text.contains("\"kind\":\"seed\"") {
        let n = after("\"seed\":").unwrap_or("0");
        let n: u64 = n[..n.find(',').unwrap_or(0)].parse().unwrap_or(0);
        println!("a parse that does not come to its end ends this process, or never ends");
        match (p.check)(&mut tape::Tape::random(n)) {
            engine::Outcome::Done(c) => Some(c),
            _ => None,
        }
    } else if text.contains("\"kind\":\"fixed\"") {
        (p.fixed)().into_iter().find(|c| c.input == input)
    } else {
        let t = after("\"tape\":[").unwrap_or("");
        let t = &t[..t.find(']').unwrap_or(0)];
        let rec: Vec<u32> = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
        match (p.check)(&mut tape::Tape::replay(rec)) {
            engine::Outcome::Done(c) => Some(c),
            engine::Outcome::Discard(why) => {
                println!("discarded: {}", why);
                None
            }
        }
    };
    match case {
        None => 3,
        Some(c) => {
            println!("{} input: {:?}", p.id, c.input);
            match c.fail {
                Some(f) => {
                    println!("fails: {}", f);
                    1
                }
                None => {
                    println!("holds");
                    0
                }
            }
        }
    }
}
