//! Tolerant mode (C14).
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::errs::*;
use crate::gen::*;
use crate::meta::BAD;
use crate::plants::*;
use crate::strict::*;
use crate::tape::Tape;
use crate::tok::*;
use resast::prelude::*;

fn same(what: &str, want: &Out<Program>, got: &Out<Program>) -> Option<String> {
    if want == got {
        return None;
    }
    match (want, got) {
        (Out::Ok(a), Out::Ok(b)) => Some(format!("{}: {}", what, diff(&format!("{:?}", a), &format!("{:?}", b)))),
        _ => Some(format!("{}: {}", what, got.short())),
    }
}

pub fn c14(t: &mut Tape) -> Outcome {
    match t.below(16) {
        0 | 1 => valid(t),
        2..=5 => any_text(t),
        6..=8 => accessor(t),
        9..=13 => in_strict(t),
        _ => retro(t),
    }
}

/// valid programs
fn valid(t: &mut Tape) -> Outcome {
    t.feat("valid program");
    let mut p = Profile::base();
    p.fuel = (4, 40);
    p.dirs = 4;
    p.modules = 5;
    let prog = program(t, &p);
    let r = Layout::new(t).render(&prog.toks);
    if !scans(&r, &prog.toks) {
        return Outcome::Discard(BAD);
    }
    let a = parse_with(&r.src, prog.module, false);
    let b = parse_with(&r.src, prog.module, true);
    let fail = if !a.is_ok() { Some(format!("without tolerance: {}", a.short())) } else { same("with tolerance", &a, &b) };
    Outcome::Done(Case { input: r.src, nontrivial: true, fail, checks: 2 })
}

/// whatever is accepted without tolerance; and what comes before the first error
fn any_text(t: &mut Tape) -> Outcome {
    let (src, module) = if t.below(3) == 2 {
        crate::soup::text(t)
    } else {
        // few edits, so that much of it is still right
        t.feat("edited program");
        let mut p = Profile::base();
        p.fuel = (3, 24);
        p.modules = 5;
        p.dirs = 3;
        let prog = program(t, &p);
        let mut toks = prog.toks;
        for _ in 0..1 + t.below(2) {
            if toks.is_empty() {
                break;
            }
            let i = t.below(toks.len() as u32) as usize;
            match t.below(4) {
                0 => {
                    toks.remove(i);
                }
                1 => toks[i] = crate::soup::random_tok(t),
                2 => {
                    let x = crate::soup::random_tok(t);
                    toks.insert(i, x);
                }
                _ => {
                    let j = t.below(toks.len() as u32) as usize;
                    toks[i] = toks[j].clone();
                }
            }
        }
        (plain(&toks).src, prog.module)
    };
    if scan(&src).is_none() {
        return Outcome::Discard("the scanner itself fails");
    }
    let a = iterate(&src, module, false);
    let b = iterate(&src, module, true);
    let mut nontrivial = false;
    let fail = match (&a, &b) {
        (Out::Panic(m), _) | (_, Out::Panic(m)) => Some(format!("panic: {}", m)),
        // nothing was parsed at all
        (Out::Err(..), _) => None,
        (Out::Ok((x, e)), Out::Ok((y, f))) => {
            nontrivial = e.is_none() || !x.is_empty();
            t.feat(if e.is_none() { "accepted without tolerance" } else { "rejected without tolerance" });
            if e.is_none() && f.is_some() {
                Some(format!("accepted without tolerance, but with tolerance: {}", f.as_ref().unwrap().0))
            } else if e.is_none() && x != y || y.len() < x.len() || y[..x.len()] != x[..] {
                Some(format!("the items up to the first error are not the same: {}", diff(&format!("{:?}", x), &format!("{:?}", y))))
            } else {
                None
            }
        }
        (Out::Ok((x, e)), Out::Err(m, _)) => {
            if e.is_none() || !x.is_empty() {
                Some(format!("with tolerance: {}", m))
            } else {
                None
            }
        }
    };
    Outcome::Done(Case { input: src, nontrivial, fail, checks: 2 })
}

const GET: &[&str] = &["( zq )", "( zq , zr )", "( zq = $M $e $< )", "( ... zq )", "( [ zq , zr = $M $e $< ] )", "( { zq : zr } , zs )", "( zq , ... zr )"];
const SET: &[&str] = &["( )", "( zq , zr )", "( ... zq )", "( zq , ... zr )", "( zq , zr = $M $e $< , zs )", "( [ zq ] , { zr } )"];
const KEY: &str = "zk7";
/// literals, with what stands for the accessor
const HOLDERS: &[(bool, &str)] = &[
    (false, "{ M }"),
    (false, "{ $o , M }"),
    (false, "{ M , $o }"),
    (false, "{ ... zq , $o , M , $o , }"),
    (false, "{ get zk ( ) { } , M }"),
    (true, "class { $T M $< }"),
    (true, "class { $T $m M $< }"),
    (true, "class { $T M $m $< }"),
    (true, "class zc { $T static _M $m $< }"),
    (true, "class extends zq { $T ; $m ; M ; $< }"),
    (true, "class { $T constructor ( ) { } static _M $< }"),
];

/// the part of the tree that says what kind the property is: (start, end)
fn kind_part(d: &str) -> Option<(usize, usize)> {
    let key = format!("key: Expr(Ident(\"{}\")), value: ", KEY);
    let at = d.find(&key)? + key.len();
    let b = d.as_bytes();
    let mut i = at;
    let mut depth = 0i32;
    loop {
        match *b.get(i)? {
            b'"' => {
                i += 1;
                while *b.get(i)? != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            b'(' | b'[' | b'{' => depth += 1,
            b')' | b']' | b'}' => depth -= 1,
            b',' if depth == 0 => break,
            _ => (),
        }
        i += 1;
    }
    let end = i + d[i..].find(", computed")?;
    Some((i, end))
}

/// getters with parameters, setters without exactly one
fn accessor(t: &mut Tape) -> Outcome {
    let get = t.below(2) == 0;
    let (class, holder) = *t.pick(HOLDERS);
    let params = *t.pick(if get { GET } else { SET });
    let body = *t.pick(&["{ $M ; $< }", "{ $M ; $i $i $< }", "{ $M ; return _$e ; $< }"]);
    let mk = |pre: &str| holder.replace('M', &format!("{} {} {} {}", pre, KEY, params, body.replace("$M", "$Q"))).replace("$Q", "$M");
    let (bad, good) = if holder.contains("_M") {
        let h = |pre: &str| holder.replace("_M", &format!("{} {} {}", pre, params, body.replace("$M", "$Q"))).replace("$Q", "$M");
        (h(&format!("{} {}", if get { "_get" } else { "_set" }, KEY)), h(&format!("_{}", KEY)))
    } else {
        (mk(if get { "get" } else { "set" }), mk(""))
    };
    let mut p = profile();
    p.modules = 0;
    let module = t.below(4) == 3;
    let cx = || if module { Cx::module() } else { Cx::script() };
    let den = *t.pick(&[1u32, 3, 8, 24]);
    let from = t.used();
    let mut g = G::new(t, p.clone(), cx());
    g.plant = Some(pair(X, PRI, any, bad.clone(), den));
    let (a, at) = g.program_plant();
    if at.is_none() {
        return Outcome::Discard("no place for the plant");
    }
    let upto = t.used();
    let b = match again(t, from, upto, &p, cx(), pair(X, PRI, any, good, den)) {
        Some(g) => g,
        None => return Outcome::Discard("the twin differs"),
    };
    let style = if t.below(2) == 0 { Style::Plain } else { Style::Compact };
    let (a, b) = match (render_style(&a.toks, style), render_style(&b.toks, style)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::Discard(BAD),
    };
    t.feat(if get { "getter with parameters" } else { "setter without one parameter" });
    let strictly = parse_with(&a.src, module, false);
    let got = parse_with(&a.src, module, true);
    let method = parse_with(&b.src, module, false);
    let fail = match (&strictly, &got, &method) {
        (Out::Ok(_), ..) => Some("accepted without tolerance".to_string()),
        (_, _, o) if !o.is_ok() => Some(format!("the same as a method ({:?}) is not accepted: {}", clip(&b.src, 400), o.short())),
        (_, Out::Ok(x), Out::Ok(y)) => {
            let (x, y) = (format!("{:?}", x), format!("{:?}", y));
            match kind_part(&y) {
                None => Some("the method is not in its tree".to_string()),
                Some((i, j)) => {
                    let was = if class { ", kind: Method, method: true" } else { ", kind: Init, method: true" };
                    if &y[i..j] != was {
                        Some(format!("the method has become {:?}", &y[i..j]))
                    } else {
                        let want = format!("{}, kind: {}, method: false{}", &y[..i], if get { "Get" } else { "Set" }, &y[j..]);
                        if want == x {
                            None
                        } else {
                            Some(format!("not the tree of the code as written: {}", diff(&want, &x)))
                        }
                    }
                }
            }
        }
        (_, o, _) => Some(format!("not tolerated: {}", o.short())),
    };
    Outcome::Done(Case { input: a.src, nontrivial: true, fail, checks: 3 })
}

fn violation(t: &mut Tape) -> Row {
    let from = |r: &T, w: &str| Row { group: r.0, slot: r.1, lvl: r.2, cond: any, bad: r.3.replace("%w", w), good: r.4.replace("%w", w) };
    match t.below(6) {
        0 | 1 | 2 => from(t.pick(RULES), ""),
        3 => {
            let w = *t.pick(NAMES);
            from(t.pick(GIVEN), w)
        }
        _ => {
            let w = *t.pick(NAMES);
            let ok: Vec<_> = BINDS
                .iter()
                .filter(|b| {
                    let label = b.3.starts_with("%w :") || b.3 == "{ $o , %w }";
                    !label && !b.3.contains("class") && b.2 as usize != module_top as usize
                })
                .collect();
            let b = *t.pick(&ok);
            Row { group: "binding eval or arguments", slot: b.0, lvl: b.1, cond: b.2, bad: b.3.replace("%w", w), good: String::new() }
        }
    }
}

fn body(p: &Program) -> Option<Vec<ProgramPart>> {
    let v = match p {
        Program::Mod(v) | Program::Script(v) => v,
    };
    if v.len() != 1 {
        return None;
    }
    match &v[0] {
        ProgramPart::Decl(Decl::Function(f)) => Some(f.body.clone()),
        ProgramPart::Decl(Decl::Class(c)) => match &c.body.first()?.value {
            PropertyValue::Expr(Expr::Function(f)) => Some(f.body.clone()),
            _ => None,
        },
        ProgramPart::Stmt(Stmt::Expr(Expr::ArrowFunction(f))) => match &f.body {
            ArrowFunctionBody::FunctionBody(b) => Some(b.clone()),
            _ => None,
        },
        ProgramPart::Stmt(Stmt::Expr(Expr::Object(o))) => match o.first()? {
            ObjectProperty::Property(Property { value: PropertyValue::Expr(Expr::Function(f)), .. }) => Some(f.body.clone()),
            _ => None,
        },
        _ => None,
    }
}

/// Code that is an error in strict code only, in strict code: the tree is that of the same code in
/// sloppy code.
fn in_strict(t: &mut Tape) -> Outcome {
    let row = violation(t);
    let mut p = profile();
    p.dirs = 0;
    p.modules = 0;
    // no strict regions inside
    p.e[CLASS] = 0;
    p.s[S_CLASS] = 0;
    p.s[S_WITH] = 0;
    let mut cx = Cx::script();
    // only what is right in both
    cx.strict = true;
    cx.awt = Mode::No;
    let den = *t.pick(&[1u32, 3, 8, 24]);
    let mut g = G::new(t, p, cx);
    g.no_top_dirs = true;
    g.no_await = true;
    g.plant = Some(pair(row.slot, row.lvl, row.cond, row.bad.clone(), den));
    let (prog, at) = g.program_plant();
    if at.is_none() {
        return Outcome::Discard("no place for the plant");
    }
    let style = if t.below(2) == 0 { Style::Plain } else { Style::Compact };
    let r = match render_style(&prog.toks, style) {
        Some(r) => r,
        None => return Outcome::Discard(BAD),
    };
    t.feat(row.group);
    let dir = ProgramPart::Dir(Dir { expr: Literal::String("'use strict'".into()), dir: "use strict".into() });
    let sloppy = match parse_with(&r.src, false, false) {
        Out::Ok(Program::Script(v)) => v,
        o => return Outcome::Done(Case { input: r.src, nontrivial: true, fail: Some(format!("not accepted in sloppy code: {}", o.short())), checks: 1 }),
    };
    let n = t.below(7);
    let s = &r.src;
    let (src, module) = match n {
        0 => (s.clone(), true),
        1 => (format!("'use strict';{}", s), false),
        2 => (format!("function zk() {{ 'use strict';{}\n}}", s), false),
        3 => (format!("class zk {{ zm() {{ {}\n}} }}", s), false),
        4 => (format!("() => {{ 'use strict';{}\n}};", s), false),
        5 => (format!("({{ get zk() {{ 'use strict';{}\n}} }});", s), false),
        _ => (format!("class zk extends zl {{ constructor(zm) {{ {}\n}} }}", s), false),
    };
    t.feat(match n {
        0 => "in a module",
        1 => "in a strict script",
        2 | 4 | 5 => "in a strict function",
        _ => "in a class",
    });
    let mut want = vec![];
    if matches!(n, 1 | 2 | 4 | 5) {
        want.push(dir);
    }
    want.extend(sloppy);
    let fail = match (parse_with(&src, module, false), parse_with(&src, module, true)) {
        (Out::Ok(_), _) => Some("accepted without tolerance".to_string()),
        (_, Out::Ok(p)) => {
            let got = match (n, p) {
                (0, Program::Mod(v)) => Some(v),
                (1, Program::Script(v)) => Some(v),
                (n, p) if n > 1 => body(&p),
                _ => None,
            };
            match got {
                None => Some("not the shape it should have".to_string()),
                Some(v) if v == want => None,
                Some(v) => Some(format!("not the tree of the code as written: {}", diff(&format!("{:?}", want), &format!("{:?}", v)))),
            }
        }
        (_, o) => Some(format!("not tolerated: {}", o.short())),
    };
    Outcome::Done(Case { input: src, nontrivial: true, fail, checks: 3 })
}

/// A directive that makes the name or the parameters before it an error.
fn retro(t: &mut Tape) -> Outcome {
    let rows: Vec<_> = RETRO.iter().filter(|r| r.0 == "eval").collect();
    let x = *t.pick(&rows);
    let w = *t.pick(NAMES);
    let d = t.below(4) as usize;
    let bad = x.3.replace("%w", w).replace('D', DIRS[d]);
    let good = x.3.replace("%w", w).replace('D', &DIRS[d].replace("use~strict", "use~_trict"));
    let mut p = profile();
    p.modules = 0;
    let den = *t.pick(&[1u32, 3, 8]);
    let from = t.used();
    let mut g = G::new(t, p.clone(), Cx::script());
    g.plant = Some(pair(x.1, x.2, sloppy_no_yield, bad, den));
    let (a, at) = g.program_plant();
    if at.is_none() {
        return Outcome::Discard("no place for the plant");
    }
    let upto = t.used();
    let b = match again(t, from, upto, &p, Cx::script(), pair(x.1, x.2, sloppy_no_yield, good, den)) {
        Some(g) => g,
        None => return Outcome::Discard("the twin differs"),
    };
    let (a, b) = match (render_style(&a.toks, Style::Plain), render_style(&b.toks, Style::Plain)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::Discard(BAD),
    };
    t.feat("directive after the name or parameter");
    let fail = match (parse_with(&a.src, false, false), parse_with(&a.src, false, true), parse_with(&b.src, false, false)) {
        (Out::Ok(_), ..) => Some("accepted without tolerance".to_string()),
        (_, Out::Ok(x), Out::Ok(y)) => {
            let want = format!("{:?}", y).replace("use _trict", "use strict");
            let got = format!("{:?}", x);
            if want == got {
                None
            } else {
                Some(format!("not the tree of the code as written: {}", diff(&want, &got)))
            }
        }
        (_, o, Out::Ok(_)) => Some(format!("not tolerated: {}", o.short())),
        (_, _, o) => Some(format!("without the directive ({:?}) not accepted: {}", clip(&b.src, 300), o.short())),
    };
    Outcome::Done(Case { input: a.src, nontrivial: true, fail, checks: 3 })
}
