//! The properties as executable checks.
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::gen::*;
use crate::tape::Tape;
use crate::tok::*;

pub fn reparse(src: &str) -> String {
    format!("{:?}", parse(src, false))
}

/// The shared oracle: the tree the generator derived must come back.
pub fn tree_case(t: &mut Tape, prog: &Prog, style: Style, omit: u32, nontrivial: bool) -> Outcome {
    let r = Layout::with(t, style, false, 1, omit).render(&prog.toks);
    if !scans(&r, &prog.toks) {
        return Outcome::Discard("scanner splits the text differently");
    }
    let want = prog.program();
    let got = parse(&r.src, prog.module);
    let fail = match got {
        Out::Ok(ref x) if *x == want => None,
        Out::Ok(x) => Some(format!("wrong tree: {}", diff(&format!("{:?}", want), &format!("{:?}", x)))),
        o => Some(format!("a valid {} is not accepted: {}", if prog.module { "module" } else { "script" }, o.short())),
    };
    Outcome::Done(Case { input: r.src, nontrivial, fail, checks: 1 })
}

pub fn simple_style(t: &mut Tape) -> Style {
    match t.below(3) {
        0 => Style::Plain,
        1 => Style::Compact,
        _ => Style::Lines,
    }
}

fn tree(t: &mut Tape, p: &Profile, nontrivial: fn(&Tape, &Prog) -> bool) -> Outcome {
    let prog = program(t, p);
    let style = simple_style(t);
    let nt = nontrivial(t, &prog);
    tree_case(t, &prog, style, 0, nt)
}

fn feats_any(t: &Tape, fs: &[&str]) -> bool {
    t.feats.iter().any(|f| fs.contains(f))
}

pub fn c01(t: &mut Tape) -> Outcome {
    let p = Profile::base().only_expr();
    tree(t, &p, |_, g| g.toks.len() >= 6)
}
pub fn c03(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.fuel = (10, 90);
    p.items = (1, 6);
    p.modules = 2;
    p = p.up_s(&[S_IF, S_FOR, S_FORIN, S_FOROF, S_WHILE, S_DO, S_SWITCH, S_TRY, S_LABEL, S_BLOCK, S_WITH, S_THROW, S_FORAWAIT], 4);
    // keep expressions light
    for i in [FUNC, CLASS, ARROW, AARROW, OBJECT, ARRAY, TEMPLATE, CALL, NEW, TAGGED].iter() {
        p.e[*i] = 1;
    }
    p.e[IDENT] = 60;
    tree(t, &p, |_, g| {
        g.toks.iter().any(|t| t.kw && ["if", "for", "while", "do", "switch", "try", "with", "throw", "return", "break", "continue"].contains(&t.s.as_str()))
            || g.toks.iter().any(|t| t.is("{"))
    })
}
pub fn c04(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p = p.up_e(&[FUNC, ARROW, AARROW, YIELD, AWAIT, NEWTARGET, SUPER], 5).up_s(&[S_FUNC, S_AFUNC, S_RETURN, S_FORAWAIT], 5);
    p.fuel = (10, 80);
    p.modules = 2;
    p.ctxt = 3;
    tree(t, &p, |_, g| g.toks.iter().any(|t| (t.kw && t.s == "function") || t.s == "=>" || t.s == "async"))
}
pub fn c05(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p = p.up_e(&[OBJECT, CLASS, SUPER], 10).up_s(&[S_CLASS], 8);
    p.fuel = (10, 80);
    p.modules = 2;
    tree(t, &p, |t, g| {
        g.toks.iter().any(|t| t.kw && t.s == "class") || feats_any(t, &["object"])
    })
}
pub fn c06(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.pats = 12;
    p = p.up_e(&[DASSIGN, ARROW, AARROW], 6).up_s(&[S_VAR, S_LEX, S_FORIN, S_FOROF, S_TRY, S_FUNC], 4);
    p.fuel = (10, 80);
    p.modules = 2;
    tree(t, &p, |t, _| feats_any(t, &["array pattern", "object pattern", "destructuring assignment"]))
}
pub fn c07(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.modules = 14;
    p = p.up_s(&[S_IMPORT, S_EXPORT], 12);
    p.items = (0, 7);
    p.fuel = (6, 50);
    let prog = program(t, &p);
    let style = simple_style(t);
    let nt = prog.toks.iter().any(|t| t.kw && (t.s == "import" || t.s == "export"));
    // the items are the same either way
    let out = tree_case(t, &prog, style, 0, nt || !prog.module);
    match out {
        Outcome::Done(mut c) if c.fail.is_none() && !nt && prog.module => {
            // no module item: the text may still be strict only; the variant is what is asked for
            if let Out::Ok(resast::prelude::Program::Script(parts)) = parse(&c.input, false) {
                c.checks += 1;
                if parts != prog.parts && !prog.toks.iter().any(|t| t.s == "await") {
                    c.fail = Some(format!(
                        "items differ between script and module: {}",
                        diff(&format!("{:?}", prog.parts), &format!("{:?}", parts))
                    ));
                }
            }
            Outcome::Done(c)
        }
        o => o,
    }
}
pub fn c08(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p = p.up_e(&[STR, NUM, REGEX, TEMPLATE, TAGGED], 8);
    p.dirs = 12;
    p.fuel = (6, 50);
    p.modules = 3;
    tree(t, &p, |_, g| g.toks.iter().any(|t| matches!(t.k, TK::Str | TK::Num | TK::Regex | TK::TplFull | TK::TplHead)))
}
