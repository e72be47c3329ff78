//! Programs with something planted that must (or must not) be rejected.
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::gen::*;
use crate::meta::BAD;
use crate::plants::*;
use crate::tape::Tape;
use crate::tok::*;

/// Generate from the recorded choices once more, with another plant.
pub fn again(t: &Tape, from: usize, upto: usize, p: &Profile, cx: Cx, plant: Plant) -> Option<Prog> {
    let rec = t.rec.get(from..upto.min(t.rec.len())).unwrap_or(&[]).to_vec();
    let mut r = Tape::replay(rec);
    let mut g = G::new(&mut r, p.clone(), cx);
    g.plant = Some(plant);
    let (prog, at) = g.program_plant();
    if r.used() != upto - from || at.is_none() {
        return None;
    }
    Some(prog)
}

/// Render without touching the layout of the rest.
pub fn render_style(toks: &[Tok], style: Style) -> Option<Rendered> {
    let mut t = Tape::replay(vec![]);
    let r = Layout::with(&mut t, style, false, 1, 0).render(toks);
    if scans(&r, toks) {
        Some(r)
    } else {
        None
    }
}

/// Render with any layout that keeps the meaning of a valid program.
pub fn render_any(t: &mut Tape, toks: &[Tok]) -> Option<Rendered> {
    let style = match t.below(6) {
        0 => Style::Plain,
        1 => Style::Compact,
        2 | 3 => Style::Lines,
        4 => Style::Wild,
        _ => Style::Comments,
    };
    let nls = if t.below(2) == 0 { 1 } else { NLS.len() };
    let r = Layout::with(t, style, style == Style::Comments || style == Style::Wild, nls, 0).render(toks);
    if scans(&r, toks) {
        Some(r)
    } else {
        None
    }
}

/// Can no inserted semicolon make the construct valid?
pub fn any_lines(row: &Row) -> bool {
    !["declaration", "module", "lexical declaration as a body"].contains(&row.group)
        && (row.slot == Slot::Expr || !row.group.starts_with("no "))
}

/// No line terminator inside the plant.
pub fn one_line(toks: &mut [Tok]) {
    let mut inside = false;
    for k in toks {
        if k.mark && inside {
            k.nonl = true;
        }
        inside = k.mark;
    }
}

/// The program with the error is rejected, the one with the corrected construct is not.
pub fn bad_good(t: &mut Tape, p: &Profile, module: bool, row: &Row, den: u32) -> Outcome {
    let cx = || if module { Cx::module() } else { Cx::script() };
    let from = t.used();
    let mut g = G::new(t, p.clone(), cx());
    g.plant = Some(pair(row.slot, row.lvl, row.cond, row.bad.clone(), den));
    let (mut bad, at) = g.program_plant();
    if at.is_none() {
        return Outcome::Discard("no place for the plant");
    }
    if !any_lines(row) {
        one_line(&mut bad.toks);
    }
    let upto = t.used();
    let good = match again(t, from, upto, p, cx(), pair(row.slot, row.lvl, row.cond, row.good.clone(), den)) {
        Some(g) => g,
        None => return Outcome::Discard("the twin differs"),
    };
    let (b, g) = match (render_any(t, &bad.toks), render_any(t, &good.toks)) {
        (Some(b), Some(g)) => (b, g),
        _ => return Outcome::Discard(BAD),
    };
    t.feat(row.group);
    let x = parse(&b.src, module);
    let y = parse(&g.src, module);
    let fail = match (&x, &y) {
        (Out::Panic(m), _) | (_, Out::Panic(m)) => Some(format!("panic: {}", m)),
        (Out::Ok(_), _) => Some(format!("{}: {:?} in this {} is accepted", row.group, row.bad, kind(module))),
        (_, Out::Err(e, _)) => Some(format!("{}: with {:?} in its place ({:?}) the {} is not accepted: {}", row.group, row.good, clip(&g.src, 600), kind(module), e)),
        _ => None,
    };
    Outcome::Done(Case { input: b.src, nontrivial: true, fail, checks: 2 })
}

fn kind(module: bool) -> &'static str {
    if module {
        "module"
    } else {
        "script"
    }
}

pub fn profile() -> Profile {
    let mut p = Profile::base();
    p.fuel = (3, 36);
    p.items = (1, 3);
    p.dirs = 2;
    p = p.up_e(&[FUNC, CLASS, ARROW, OBJECT], 2);
    p
}

/// something that is no target where one is needed, or nothing to bind where a name is bound
pub fn misplaced(bind: bool, ctx: &(Slot, u32, bool, &str), what: &(fn(&Cx) -> bool, bool, &str)) -> Option<Row> {
    if what.1 && !ctx.2 {
        return None;
    }
    let group = if bind { "no name or pattern where one is bound" } else { "no target where one is assigned" };
    Some(Row { group, slot: ctx.0, lvl: ctx.1, cond: what.0, bad: ctx.3.replace("%b", what.2), good: ctx.3.replace("%b", "zq") })
}

pub fn early_row(t: &mut Tape) -> Row {
    if t.chance(1, 4) {
        loop {
            let bind = t.chance(1, 2);
            let r = if bind {
                let all = NOT_TARGETS.len() + NOT_BINDINGS.len();
                let k = t.below(all as u32) as usize;
                let what = NOT_TARGETS.get(k).unwrap_or_else(|| &NOT_BINDINGS[k - NOT_TARGETS.len()]);
                misplaced(true, t.pick(AS_BINDING), what)
            } else {
                misplaced(false, t.pick(AS_TARGET), t.pick(NOT_TARGETS))
            };
            if let Some(r) = r {
                return r;
            }
        }
    }
    if t.chance(1, 3) {
        let b = &BINDS[t.below(BINDS.len() as u32) as usize];
        let mut w = RESERVED[t.below(RESERVED.len() as u32) as usize];
        if w == "extends" && b.3.contains("class %w") || w == "default" && b.3.starts_with("%w :") {
            w = "if";
        }
        return Row { group: "reserved word as a name", slot: b.0, lvl: b.1, cond: b.2, bad: b.3.replace("%w", w), good: b.3.replace("%w", "zq") };
    }
    // groups first, so that a long list does not drown a short one
    let mut groups: Vec<&str> = EARLY.iter().map(|r| r.0).collect();
    groups.dedup();
    let g = *t.pick(&groups);
    let rows: Vec<_> = EARLY.iter().filter(|r| r.0 == g).collect();
    let r = rows[t.below(rows.len() as u32) as usize];
    Row { group: r.0, slot: r.1, lvl: r.2, cond: r.3, bad: r.4.to_string(), good: r.5.to_string() }
}

pub fn c15(t: &mut Tape) -> Outcome {
    let row = early_row(t);
    let mut p = profile();
    let module = (row.cond as usize == module_top as usize) || t.below(16) >= 12;
    if row.cond as usize == no_func as usize {
        p.e[FUNC] = 1;
    }
    p.modules = 0;
    let den = *t.pick(&[1u32, 3, 8, 24]);
    bad_good(t, &p, module, &row, den)
}

/// every row on its own (a development aid)
pub fn rows(which: &str) {
    let mut all: Vec<Row> = vec![];
    if which == "missing" {
        all = crate::missing::all();
    } else {
        all.extend(EARLY.iter().map(|r| Row { group: r.0, slot: r.1, lvl: r.2, cond: r.3, bad: r.4.to_string(), good: r.5.to_string() }));
        for c in AS_TARGET {
            all.extend(NOT_TARGETS.iter().filter_map(|w| misplaced(false, c, w)));
        }
        for c in AS_BINDING {
            all.extend(NOT_TARGETS.iter().chain(NOT_BINDINGS).filter_map(|w| misplaced(true, c, w)));
        }
        for b in BINDS {
            for w in RESERVED {
                if *w == "extends" && b.3.contains("class %w") || *w == "default" && b.3.starts_with("%w :") {
                    continue;
                }
                all.push(Row { group: "reserved word as a name", slot: b.0, lvl: b.1, cond: b.2, bad: b.3.replace("%w", w), good: b.3.replace("%w", "zq") });
            }
        }
    }
    let (k, n) = (std::env::var("PART").ok().and_then(|s| s.parse().ok()).unwrap_or(0), std::env::var("PARTS").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
    for (at, r) in all.into_iter().enumerate() {
        if at % n != k || which != "missing" && which != "early" && !r.group.contains(which) {
            continue;
        }
        let mut n = 0;
        for i in 0..400 {
            let mut t = Tape::random(i);
            let module = r.cond as usize == module_top as usize || i % 4 == 0;
            let mut p = profile();
            p.fuel = (1, 6);
            p.dirs = 0;
            let o = bad_good(&mut t, &p, module, &r, 3);
            if let Outcome::Done(c) = o {
                n += 1;
                if let Some(f) = c.fail {
                    println!("{}\n   {:?}", clip(&f, 400), clip(&c.input, 200));
                    break;
                }
            }
        }
        if n == 0 {
            println!("NEVER {:?}", r.bad);
        }
    }
}

// ---- C17 --------------------------------------------------------------------------------
fn depth_change(k: &Tok) -> i32 {
    match k.k {
        TK::TplHead => 1,
        TK::TplTail => -1,
        TK::Punct => match k.s.as_str() {
            "(" | "[" | "{" => 1,
            ")" | "]" | "}" => -1,
            _ => 0,
        },
        _ => 0,
    }
}
fn is_bracket(k: &Tok) -> bool {
    k.k == TK::Punct && matches!(k.s.as_str(), "(" | "[" | "{" | ")" | "]" | "}")
}
/// can a program end after this token?
fn wants_more(k: &Tok) -> bool {
    k.req || k.k == TK::Punct && !matches!(k.s.as_str(), ")" | "]" | "}" | ";" | "++" | "--")
}

pub fn c17(t: &mut Tape) -> Outcome {
    let mut p = profile();
    p.ctxt = 0;
    p.modules = 4;
    let kind = t.below(16);
    if kind < 6 {
        let all = crate::missing::all();
        // groups first
        let mut groups: Vec<&str> = all.iter().map(|r| r.group).collect();
        groups.sort_unstable();
        groups.dedup();
        let g = *t.pick(&groups);
        let rows: Vec<_> = all.iter().filter(|r| r.group == g).collect();
        let row = (*t.pick(&rows)).clone();
        let module = row.cond as usize == module_top as usize || row.cond as usize != sloppy as usize && t.below(4) == 3;
        p.modules = 0;
        let den = *t.pick(&[1u32, 3, 8, 24]);
        return bad_good(t, &p, module, &row, den);
    }
    let prog = program(t, &p);
    let mut toks = prog.toks.clone();
    if toks.len() < 2 {
        return Outcome::Discard("too short");
    }
    let n = toks.len();
    let brackets: Vec<usize> = (0..n).filter(|i| is_bracket(&toks[*i])).collect();
    let what;
    match kind {
        6 | 7 | 8 => {
            // cut off
            let mut at = vec![];
            let mut d = 0;
            for i in 0..n - 1 {
                d += depth_change(&toks[i]);
                if d > 0 || wants_more(&toks[i]) {
                    at.push(i);
                }
            }
            if at.is_empty() {
                return Outcome::Discard("no place to cut");
            }
            let i = *t.pick(&at);
            toks.truncate(i + 1);
            what = format!("cut off after token {} ({:?})", i, toks[i].s);
            t.feat("cut off");
        }
        9 | 10 => {
            if brackets.is_empty() {
                return Outcome::Discard("no bracket");
            }
            let i = *t.pick(&brackets);
            let x = toks.remove(i);
            what = format!("token {} ({:?}) removed", i, x.s);
            t.feat("bracket removed");
        }
        11 => {
            if brackets.is_empty() {
                return Outcome::Discard("no bracket");
            }
            let i = *t.pick(&brackets);
            let other: Vec<&str> = ["(", "[", "{", ")", "]", "}"].iter().filter(|b| **b != toks[i].s).cloned().collect();
            let s = *t.pick(&other);
            what = format!("token {} ({:?}) exchanged for {:?}", i, toks[i].s, s);
            toks[i].s = s.to_string();
            t.feat("bracket exchanged");
        }
        12 | 13 => {
            let i = t.below(n as u32 + 1) as usize;
            let s = *t.pick(&["(", "[", "{", ")", "]", "}"]);
            toks.insert(i, Tok::new(TK::Punct, s));
            what = format!("{:?} inserted before token {}", s, i);
            t.feat("bracket added");
        }
        14 => {
            // two neighbouring brackets in the wrong order
            let at: Vec<usize> = (1..n)
                .filter(|i| is_bracket(&toks[i - 1]) && is_bracket(&toks[*i]) && toks[i - 1].s != toks[*i].s && depth_change(&toks[i - 1]) == depth_change(&toks[*i]))
                .collect();
            if at.is_empty() {
                return Outcome::Discard("no neighbouring brackets");
            }
            let i = *t.pick(&at);
            // the tokens keep their own places' line terminator rules
            let (a, b) = (toks[i - 1].s.clone(), toks[i].s.clone());
            toks[i - 1].s = b;
            toks[i].s = a;
            what = format!("tokens {} and {} exchanged", i - 1, i);
            t.feat("brackets exchanged");
        }
        _ => {
            let at: Vec<usize> = (0..n).filter(|i| toks[*i].del).collect();
            if at.is_empty() {
                return Outcome::Discard("no required token");
            }
            let i = *t.pick(&at);
            let x = toks.remove(i);
            if let Some(n) = toks.get_mut(i) {
                n.nonl |= !x.hard;
            }
            what = format!("token {} ({:?}) removed", i, x.s);
            t.feat("required token removed");
        }
    }
    let r = match render_any(t, &toks) {
        Some(r) => r,
        None => return Outcome::Discard(BAD),
    };
    let fail = match parse(&r.src, prog.module) {
        Out::Ok(_) => Some(format!("{}: accepted", what)),
        Out::Panic(m) => Some(format!("{}: panic: {}", what, m)),
        _ => None,
    };
    Outcome::Done(Case { input: r.src, nontrivial: true, fail, checks: 1 })
}
