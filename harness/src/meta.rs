//! Layout, comment, composition and entry point relations (C09-C14, C19).
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::gen::*;
use crate::tape::Tape;
use crate::tok::*;
use resast::prelude::*;
use ressa::{Builder, CommentHandler, Error, Parser};
use std::cell::RefCell;
use std::rc::Rc;

pub fn differ(want: &Program, got: &Out<Program>) -> Option<String> {
    match got {
        Out::Ok(x) if x == want => None,
        Out::Ok(x) => Some(format!("wrong tree: {}", diff(&format!("{:?}", want), &format!("{:?}", x)))),
        o => Some(format!("valid text is not accepted: {}", o.short())),
    }
}

// ---- C09 --------------------------------------------------------------------------------
pub fn c09(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.fuel = (6, 40);
    p.items = (2, 6);
    p = p.up_s(&[S_RETURN, S_THROW, S_BREAK, S_CONTINUE, S_DO, S_VAR, S_LEX, S_EXPR, S_IMPORT, S_EXPORT], 3);
    p = p.up_e(&[YIELD, UPDATE], 3);
    p.dirs = 3;
    match t.below(8) {
        0 | 1 => restricted(t, &p),
        2 => one_line(t, &p),
        _ => omitted(t, &p),
    }
}

/// semicolons left out wherever insertion must supply them
fn omitted(t: &mut Tape, p: &Profile) -> Outcome {
    let prog = program(t, p);
    let style = match t.below(4) {
        0 => Style::Plain,
        1 => Style::Compact,
        2 => Style::Lines,
        _ => Style::Comments,
    };
    let omit = *t.pick(&[8u32, 4, 8, 2]);
    let r = Layout::with(t, style, true, NLS.len(), omit).render(&prog.toks);
    if !scans(&r, &prog.toks) {
        return Outcome::Discard("scanner splits the text differently");
    }
    if r.asi_nl > 0 {
        t.feat("semicolon before a line terminator left out");
    }
    if r.asi_close > 0 {
        t.feat("semicolon before } or the end left out");
    }
    let fail = differ(&prog.program(), &parse(&r.src, prog.module));
    Outcome::Done(Case { nontrivial: r.asi_nl + r.asi_close > 0, input: r.src, fail, checks: 1 })
}

/// a semicolon left out with nothing to stand in for it
fn one_line(t: &mut Tape, p: &Profile) -> Outcome {
    let prog = program(t, p);
    let mut toks = prog.toks.clone();
    let mut cand = vec![];
    for i in 1..toks.len() {
        if toks[i].k != TK::Semi || i + 1 >= toks.len() {
            continue;
        }
        let (a, b) = (&toks[i - 1], &toks[i + 1]);
        if !asi_safe_next(a, b) || b.is("}") || b.is(";") || b.is("++") || b.is("--") {
            continue;
        }
        if a.k == TK::Word
            && (a.kw
                || ["let", "async", "yield", "await", "return", "break", "continue", "of", "get", "set", "static", "import", "export", "from", "as"]
                    .contains(&a.s.as_str()))
        {
            continue;
        }
        if b.k == TK::Word && ["from", "as", "of"].contains(&b.s.as_str()) {
            continue;
        }
        cand.push(i);
    }
    if cand.is_empty() {
        return Outcome::Discard("no statement to join");
    }
    let i = *t.pick(&cand);
    toks.remove(i);
    toks[i].nonl = true;
    let r = Layout::with(t, Style::Wild, true, 2, 0).render(&toks);
    if !scans(&r, &toks) {
        return Outcome::Discard("scanner splits the text differently");
    }
    t.feat("two statements on one line");
    let fail = match parse(&r.src, prog.module) {
        Out::Ok(_) => Some(format!("two statements on one line without a semicolon are accepted (before {:?})", toks[i].s)),
        Out::Panic(m) => Some(format!("panic: {}", m)),
        _ => None,
    };
    Outcome::Done(Case { input: r.src, nontrivial: true, fail, checks: 1 })
}

/// a line terminator in a restricted production
fn restricted(t: &mut Tape, p: &Profile) -> Outcome {
    let mut toks: Vec<Tok> = vec![];
    let w = |s: &str| Tok::new(TK::Word, s);
    let kwd = |s: &str| {
        let mut x = Tok::new(TK::Word, s);
        x.kw = true;
        x
    };
    let pu = |s: &str| Tok::new(TK::Punct, s);
    let ins = || {
        // a semicolon that must be left out; the layout puts a line terminator there
        let mut x = Tok::new(TK::Semi, ";");
        x.force_omit = true;
        x
    };
    let semi = || Tok::new(TK::Semi, ";");
    let id = |s: &str| Expr::Ident(s.to_string());
    let st = |x: Expr| ProgramPart::Stmt(Stmt::Expr(x));
    let mut parts: Vec<ProgramPart>;
    let k = t.below(12);
    // what comes after the line terminator
    let after = |t: &mut Tape, toks: &mut Vec<Tok>, cx: &dyn Fn(&mut G)| -> ProgramPart {
        let mut g = G::new(t, p.clone(), Cx::script());
        g.cx.func = true;
        cx(&mut g);
        g.fuel = 8;
        loop {
            let x = g.expr_stmt(false);
            let f = &g.toks[0];
            // what starts like a continuation or another statement is no use here
            if f.k == TK::Word && !["in", "instanceof"].contains(&f.s.as_str()) || f.k == TK::Num || f.k == TK::Str {
                toks.extend(g.toks.clone());
                return ProgramPart::Stmt(Stmt::Expr(x));
            }
            g.toks.clear();
            let x = id("q");
            g.nm("q");
            g.semi();
            toks.extend(g.toks.clone());
            return ProgramPart::Stmt(Stmt::Expr(x));
        }
    };
    let none = |_: &mut G| ();
    let func = |params: Vec<FunctionArg>, body: Vec<ProgramPart>, generator: bool| {
        ProgramPart::Decl(Decl::Function(Function { id: Some("f".into()), params, body, generator, is_async: false }))
    };
    let head = |toks: &mut Vec<Tok>, gen: bool| {
        toks.push(kwd("function"));
        if gen {
            toks.push(pu("*"));
        }
        toks.push(w("f"));
        toks.push(pu("("));
        toks.push(pu(")"));
        toks.push(pu("{"));
    };
    match k {
        0 => {
            t.feat("line terminator after return");
            head(&mut toks, false);
            toks.push(kwd("return"));
            toks.push(ins());
            let a = after(t, &mut toks, &none);
            toks.push(pu("}"));
            parts = vec![func(vec![], vec![ProgramPart::Stmt(Stmt::Return(None)), a], false)];
        }
        1 | 2 => {
            t.feat(if k == 1 { "line terminator after break" } else { "line terminator after continue" });
            // l: while (c) { break \n l }
            let lab = t.pick(&["l", "foo", "async", "of"]).to_string();
            toks.extend(vec![w(&lab), pu(":"), kwd("while"), pu("("), w("c"), pu(")"), pu("{")]);
            toks.push(kwd(if k == 1 { "break" } else { "continue" }));
            toks.push(ins());
            toks.push(w(&lab));
            toks.push(semi());
            toks.push(pu("}"));
            let j = if k == 1 { Stmt::Break(None) } else { Stmt::Continue(None) };
            let body = Stmt::Block(vec![ProgramPart::Stmt(j), st(id(&lab))]);
            parts = vec![ProgramPart::Stmt(Stmt::Labeled(LabeledStmt {
                label: lab,
                body: Box::new(Stmt::While(WhileStmt { test: id("c"), body: Box::new(body) })),
            }))];
        }
        3 => {
            t.feat("line terminator after yield");
            head(&mut toks, true);
            let wrapped = t.below(3);
            let y = Expr::Yield(YieldExpr { argument: None, delegate: false });
            match wrapped {
                0 => toks.push(kwd("yield")),
                1 => toks.extend(vec![w("a"), pu("="), kwd("yield")]),
                _ => toks.extend(vec![w("a"), pu("?"), w("b"), pu(":"), kwd("yield")]),
            }
            toks.push(ins());
            let a = after(t, &mut toks, &|g: &mut G| g.cx.yld = Mode::Op);
            toks.push(pu("}"));
            let first = match wrapped {
                0 => y,
                1 => Expr::Assignment(AssignmentExpr {
                    operator: AssignmentOperator::Equal,
                    left: AssignmentLeft::Expr(Box::new(id("a"))),
                    right: Box::new(y),
                }),
                _ => Expr::Conditional(ConditionalExpr { test: Box::new(id("a")), alternate: Box::new(y), consequent: Box::new(id("b")) }),
            };
            parts = vec![func(vec![], vec![st(first), a], true)];
        }
        4 | 5 => {
            t.feat("line terminator before ++ or --");
            // a \n ++ b
            let up = if k == 4 { "++" } else { "--" };
            let operator = if k == 4 { UpdateOperator::Increment } else { UpdateOperator::Decrement };
            let (lt, le): (Vec<Tok>, Expr) = match t.below(4) {
                0 => (vec![w("a")], id("a")),
                1 => (vec![w("a"), pu("."), w("b")], member(id("a"), "b")),
                2 => (
                    vec![w("a"), pu("["), w("b"), pu("]")],
                    Expr::Member(MemberExpr { object: Box::new(id("a")), property: Box::new(id("b")), computed: true }),
                ),
                _ => (vec![w("a"), pu("+"), w("b")], bin(BinaryOperator::Plus, id("a"), id("b"))),
            };
            toks.extend(lt);
            toks.push(ins());
            toks.push(pu(up));
            toks.push(w("c"));
            toks.push(semi());
            parts = vec![st(le), st(Expr::Update(UpdateExpr { operator, argument: Box::new(id("c")), prefix: true }))];
        }
        6 => {
            t.feat("line terminator after throw");
            toks.push(kwd("throw"));
            toks.push(ins());
            let _ = after(t, &mut toks, &none);
            parts = vec![];
        }
        9 => {
            t.feat("line terminator between yield and what cannot start a statement");
            head(&mut toks, true);
            match t.below(3) {
                0 => toks.push(kwd("yield")),
                1 => toks.extend(vec![w("a"), pu("="), kwd("yield")]),
                _ => toks.extend(vec![w("a"), pu("?"), w("b"), pu(":"), kwd("yield")]),
            }
            let mut x = pu(t.pick(&["*", "*", "*", "?", "==", "&&", "|", "<", ">>>", "%", "**", "=", "+=", "=>", "."]));
            if x.s == "." && t.below(2) == 0 {
                x = Tok::new(TK::Word, "instanceof");
            }
            // the layout writes a line terminator, and nothing stands for the semicolon
            x.must_nl = true;
            toks.push(x);
            toks.push(w("b"));
            toks.push(semi());
            toks.push(pu("}"));
            parts = vec![];
        }
        10 => {
            t.feat("line terminator before the arrow");
            match t.below(3) {
                0 => (),
                1 => toks.extend(vec![w("a"), pu("=")]),
                _ => toks.extend(vec![w("a"), pu("("), w("b"), pu(",")]),
            }
            let close = toks.len() > 2;
            if t.below(2) == 0 {
                toks.push(w("async"));
                toks.push(w("x"));
                toks.last_mut().unwrap().nonl = true;
            } else {
                toks.push(w("x"));
            }
            if t.below(2) == 0 {
                let x = toks.pop().unwrap();
                let mut open = pu("(");
                open.nonl = x.nonl;
                toks.push(open);
                match t.below(4) {
                    0 => (),
                    1 => toks.push(w("x")),
                    2 => toks.extend(vec![w("x"), pu(","), w("y"), pu(",")]),
                    _ => toks.extend(vec![w("x"), pu(","), pu("..."), pu("["), w("y"), pu("]")]),
                }
                toks.push(pu(")"));
            }
            let mut x = pu("=>");
            x.must_nl = true;
            toks.push(x);
            if t.below(2) == 0 {
                toks.push(w("b"));
            } else {
                toks.extend(vec![pu("{"), pu("}")]);
            }
            if close {
                toks.push(pu(")"));
            }
            toks.push(semi());
            parts = vec![];
        }
        11 => {
            t.feat("line terminator after the async of a method");
            let class = t.below(2) == 0;
            if class {
                toks.extend(vec![kwd("class"), w("c"), pu("{")]);
            } else {
                toks.extend(vec![pu("("), pu("{")]);
            }
            let other = |t: &mut Tape, toks: &mut Vec<Tok>| {
                if t.below(3) == 0 {
                    toks.extend(vec![w("d"), pu("("), pu(")"), pu("{"), pu("}")]);
                    if !class {
                        toks.push(pu(","));
                    }
                }
            };
            other(t, &mut toks);
            if class && t.below(2) == 0 {
                toks.push(w("static"));
            }
            toks.push(w("async"));
            let at = toks.len();
            match t.below(4) {
                0 => toks.push(w("m")),
                1 => toks.push(w("if")),
                2 => toks.push(w("get")),
                _ => toks.extend(vec![pu("["), w("m"), pu("]")]),
            }
            toks[at].must_nl = true;
            toks.extend(vec![pu("("), pu(")"), pu("{"), pu("}")]);
            if class {
                other(t, &mut toks);
                toks.push(pu("}"));
            } else {
                toks.extend(vec![pu("}"), pu(")"), semi()]);
            }
            parts = vec![];
        }
        7 => {
            t.feat("line terminator after async");
            // async \n function f() {}
            toks.push(w("async"));
            toks.push(ins());
            head(&mut toks, false);
            toks.push(pu("}"));
            parts = vec![st(id("async")), func(vec![], vec![], false)];
        }
        _ => {
            t.feat("line terminator after async");
            // async \n x => x
            toks.push(w("async"));
            toks.push(ins());
            toks.extend(vec![w("x"), pu("=>"), w("x"), semi()]);
            toks[3].nonl = true;
            parts = vec![
                st(id("async")),
                st(Expr::ArrowFunction(ArrowFunctionExpr {
                    id: None,
                    params: vec![FunctionArg::Expr(id("x"))],
                    body: ArrowFunctionBody::Expr(Box::new(id("x"))),
                    expression: true,
                    generator: false,
                    is_async: false,
                })),
            ];
        }
    }
    // anywhere in a program
    let mut wrap = t.below(4);
    while wrap > 0 {
        wrap -= 1;
        match t.below(3) {
            0 => {
                toks.insert(0, pu("{"));
                toks.push(pu("}"));
                parts = vec![ProgramPart::Stmt(Stmt::Block(parts))];
            }
            1 => {
                let mut v = vec![kwd("if"), pu("("), w("c"), pu(")"), pu("{")];
                v.extend(toks);
                v.push(pu("}"));
                toks = v;
                parts = vec![ProgramPart::Stmt(Stmt::If(IfStmt { test: id("c"), consequent: Box::new(Stmt::Block(parts)), alternate: None }))];
            }
            _ => {
                let mut v = vec![w("z"), pu("="), kwd("function"), pu("("), pu(")"), pu("{")];
                v.extend(toks);
                v.push(pu("}"));
                v.push(semi());
                toks = v;
                parts = vec![st(Expr::Assignment(AssignmentExpr {
                    operator: AssignmentOperator::Equal,
                    left: AssignmentLeft::Expr(Box::new(id("z"))),
                    right: Box::new(Expr::Function(Function { id: None, params: vec![], body: parts, generator: false, is_async: false })),
                }))];
            }
        }
    }
    // is every left out semicolon really replaced by a line terminator?
    let style = match t.below(3) {
        0 => Style::Plain,
        1 => Style::Wild,
        _ => Style::Comments,
    };
    let r = Layout::with(t, style, true, NLS.len(), 0).render(&toks);
    if !scans(&r, &toks) {
        return Outcome::Discard("scanner splits the text differently");
    }
    let got = parse(&r.src, false);
    let fail = if k == 6 || k >= 9 {
        match got {
            Out::Ok(_) => Some(format!("a line terminator {} is accepted", ["after throw", "after yield", "before =>", "after the async of a method"][[6, 9, 10, 11].iter().position(|x| *x == k).unwrap()])),
            Out::Panic(m) => Some(format!("panic: {}", m)),
            _ => None,
        }
    } else {
        differ(&Program::Script(parts), &got)
    };
    Outcome::Done(Case { input: r.src, nontrivial: true, fail, checks: 1 })
}

// ---- C10 --------------------------------------------------------------------------------
pub fn c10(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.ctxt = 4;
    p.items = (0, 4);
    p = p.up_e(&[ARROW, AARROW, TEMPLATE, YIELD], 2).up_s(&[S_AFUNC, S_RETURN], 2);
    let prog = program(t, &p);
    let base = plain(&prog.toks);
    if !scans(&base, &prog.toks) {
        return Outcome::Discard("scanner splits the text differently");
    }
    let want = parse(&base.src, prog.module);
    if !want.is_ok() {
        return Outcome::Done(Case { input: base.src, nontrivial: true, fail: Some(format!("valid text is not accepted: {}", want.short())), checks: 1 });
    }
    let mut checks = 1;
    let mut input = String::new();
    let mut nontrivial = false;
    for _ in 0..2 {
        let mut l = Layout::new(t);
        l.omit = 0;
        let r = l.render(&prog.toks);
        if !scans(&r, &prog.toks) {
            return Outcome::Discard("scanner splits the text differently");
        }
        checks += 1;
        nontrivial |= r.src != base.src;
        if !r.comments.is_empty() {
            t.feat("comments");
        }
        if r.newlines > 0 {
            t.feat("line terminators");
        }
        let got = parse(&r.src, prog.module);
        if got != want {
            let fail = match (&want, &got) {
                (Out::Ok(a), Out::Ok(b)) => format!("layout changes the tree of {:?}: {}", clip(&base.src, 300), diff(&format!("{:?}", a), &format!("{:?}", b))),
                _ => format!("layout of {:?} makes it unacceptable: {}", clip(&base.src, 300), got.short()),
            };
            return Outcome::Done(Case { input: r.src, nontrivial: true, fail: Some(fail), checks });
        }
        input = r.src;
    }
    Outcome::Done(Case { input, nontrivial, fail: None, checks })
}

// ---- C11 --------------------------------------------------------------------------------
type Seen = Rc<RefCell<Vec<(usize, usize, CK, String)>>>;
fn note(seen: &Seen, item: ress::Item) {
    if let ress::Token::Comment(c) = &item.token {
        let k = match c.kind {
            ress::CommentKind::Single => CK::Single,
            _ => CK::Multi,
        };
        seen.borrow_mut().push((item.span.start, item.span.end, k, c.content.clone()));
    } else {
        seen.borrow_mut().push((item.span.start, item.span.end, CK::Single, format!("not a comment: {:?}", item.token)));
    }
}
struct Handler(Seen);
impl CommentHandler for Handler {
    fn handle_comment(&mut self, comment: ress::Item) {
        note(&self.0, comment)
    }
}

pub fn c11(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.ctxt = 4;
    p = p.up_e(&[TEMPLATE, IMPORTCALL, AARROW, FUNC], 2).up_s(&[S_LEX, S_AFUNC], 2);
    p.items = (0, 4);
    let prog = program(t, &p);
    let style = if t.chance(1, 4) { Style::Wild } else { Style::Comments };
    let omit = *t.pick(&[0u32, 0, 4]);
    let r = Layout::with(t, style, true, NLS.len(), omit).render(&prog.toks);
    if !scans(&r, &prog.toks) {
        return Outcome::Discard("scanner splits the text differently");
    }
    let seen: Seen = Rc::new(RefCell::new(vec![]));
    let how = t.below(3);
    let src = r.src.clone();
    let module = prog.module;
    let s2 = seen.clone();
    let got: Out<Program> = guard(src.len(), move || {
        let mut b = Builder::new();
        b.module(module).js(src);
        match how {
            0 => b.with_comment_handler(Handler(s2))?.parse(),
            1 => b.with_comment_handler(move |i| note(&s2, i))?.parse(),
            _ => {
                let p = b.with_comment_handler(Handler(s2))?;
                let v: Result<Vec<_>, Error> = p.collect();
                v.map(|v| if module { Program::Mod(v) } else { Program::Script(v) })
            }
        }
    });
    let mut fail = differ(&prog.program(), &got);
    if fail.is_none() {
        let seen = seen.borrow();
        let want: Vec<(usize, usize, CK, String)> = r.comments.iter().map(|c| (c.start, c.end, c.kind, cmt_text(&r.src, c))).collect();
        if *seen != want {
            let i = seen.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
            fail = Some(format!(
                "comment {} of {}: expected {:?}, handler got {:?} ({} calls)",
                i,
                want.len(),
                want.get(i),
                seen.get(i),
                seen.len()
            ));
        }
    }
    Outcome::Done(Case { nontrivial: r.comments.len() >= 2, input: r.src, fail, checks: 1 })
}

// ---- C12 --------------------------------------------------------------------------------
/// constructs that leave something behind if anything does
fn leaky() -> Profile {
    let mut p = Profile::base();
    p.fuel = (6, 40);
    p.items = (1, 3);
    p.dirs = 0;
    p.modules = 0;
    p.ctxt = 3;
    p = p.up_e(&[FUNC, CLASS, ARROW, AARROW, YIELD, AWAIT, DASSIGN], 3);
    p.up_s(&[S_FOR, S_FORIN, S_FOROF, S_SWITCH, S_LABEL, S_CLASS, S_FUNC, S_AFUNC, S_DO, S_WHILE], 3)
}

fn render_simple(t: &mut Tape, toks: &[Tok]) -> Option<Rendered> {
    let style = crate::props::simple_style(t);
    let r = Layout::with(t, style, false, 1, 0).render(toks);
    if scans(&r, toks) {
        Some(r)
    } else {
        None
    }
}

pub const BAD: &str = "scanner splits the text differently";

pub fn c12(t: &mut Tape) -> Outcome {
    match t.below(4) {
        0 => concat(t),
        1 => wrapped(t),
        _ => probes(t),
    }
}

fn concat(t: &mut Tape) -> Outcome {
    t.feat("concatenation");
    let mut p = leaky();
    p.modules = 4;
    let a = program(t, &p);
    p.s[S_IMPORT] = 0;
    p.s[S_EXPORT] = 0;
    let cx = if a.module { Cx::module() } else { Cx::script() };
    let mut g = G::new(t, p, cx);
    g.declared = a.declared.clone();
    let b = g.program();
    let (ra, rb) = match (render_simple(t, &a.toks), render_simple(t, &b.toks)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::Discard(BAD),
    };
    let src = format!("{}\n{}", ra.src, rb.src);
    let (xa, xb) = (parse(&ra.src, a.module), parse(&rb.src, a.module));
    let (pa, pb) = match (xa, xb) {
        (Out::Ok(a), Out::Ok(b)) => (a, b),
        (Out::Ok(_), o) => return Outcome::Done(Case { input: rb.src, nontrivial: true, fail: Some(format!("valid text is not accepted: {}", o.short())), checks: 2 }),
        (o, _) => return Outcome::Done(Case { input: ra.src, nontrivial: true, fail: Some(format!("valid text is not accepted: {}", o.short())), checks: 2 }),
    };
    let want = match (pa, pb) {
        (Program::Script(mut a), Program::Script(b)) => {
            a.extend(b);
            Program::Script(a)
        }
        (Program::Mod(mut a), Program::Mod(b)) => {
            a.extend(b);
            Program::Mod(a)
        }
        _ => return Outcome::Done(Case { input: src, nontrivial: true, fail: Some("the parts are not of the same kind".into()), checks: 2 }),
    };
    let fail = differ(&want, &parse(&src, a.module));
    Outcome::Done(Case { input: src, nontrivial: true, fail, checks: 3 })
}

fn wrapped(t: &mut Tape) -> Outcome {
    t.feat("wrapping");
    let p = leaky();
    let prog = program(t, &p);
    // names `await` and `yield` stay names in every wrapper used here
    let r = match render_simple(t, &prog.toks) {
        Some(r) => r,
        None => return Outcome::Discard(BAD),
    };
    let inner = match parse(&r.src, false) {
        Out::Ok(Program::Script(v)) => v,
        o => return Outcome::Done(Case { input: r.src, nontrivial: true, fail: Some(format!("valid text is not accepted: {}", o.short())), checks: 1 }),
    };
    let mut src = r.src;
    let mut parts = inner;
    let n = 1 + t.below(3);
    let id = |s: &str| Expr::Ident(s.to_string());
    let st = |s: Stmt| vec![ProgramPart::Stmt(s)];
    let func = |name: Option<&str>, body: Vec<ProgramPart>| Function {
        id: name.map(|s| s.to_string()),
        params: vec![],
        body,
        generator: false,
        is_async: false,
    };
    for _ in 0..n {
        match t.below(11) {
            0 => {
                src = format!("{{{}\n}}", src);
                parts = st(Stmt::Block(parts));
            }
            1 => {
                src = format!("function w() {{{}\n}}", src);
                parts = vec![ProgramPart::Decl(Decl::Function(func(Some("w"), parts)))];
            }
            2 => {
                src = format!("w = function () {{{}\n}};", src);
                parts = st(Stmt::Expr(Expr::Assignment(AssignmentExpr {
                    operator: AssignmentOperator::Equal,
                    left: AssignmentLeft::Expr(Box::new(id("w"))),
                    right: Box::new(Expr::Function(func(None, parts))),
                })));
            }
            3 => {
                src = format!("w(() => {{{}\n}});", src);
                parts = st(Stmt::Expr(Expr::Call(CallExpr {
                    callee: Box::new(id("w")),
                    arguments: vec![Expr::ArrowFunction(ArrowFunctionExpr {
                        id: None,
                        params: vec![],
                        body: ArrowFunctionBody::FunctionBody(parts),
                        expression: false,
                        generator: false,
                        is_async: false,
                    })],
                })));
            }
            4 => {
                src = format!("({{ m() {{{}\n}} }});", src);
                parts = st(Stmt::Expr(Expr::Object(vec![ObjectProperty::Property(Property {
                    key: PropertyKey::Expr(id("m")),
                    value: PropertyValue::Expr(Expr::Function(func(None, parts))),
                    kind: PropertyKind::Init,
                    method: true,
                    computed: false,
                    short_hand: false,
                })])));
            }
            5 => {
                src = format!("while (w) {{{}\n}}", src);
                parts = st(Stmt::While(WhileStmt { test: id("w"), body: Box::new(Stmt::Block(parts)) }));
            }
            6 => {
                src = format!("switch (w) {{ case w: {}\n}}", src);
                parts = st(Stmt::Switch(SwitchStmt { discriminant: id("w"), cases: vec![SwitchCase { test: Some(id("w")), consequent: parts }] }));
            }
            7 => {
                src = format!("try {{{}\n}} finally {{ w; }}", src);
                parts = st(Stmt::Try(TryStmt {
                    block: parts,
                    handler: None,
                    finalizer: Some(st(Stmt::Expr(id("w")))),
                }));
            }
            8 => {
                src = format!("if (w) {{{}\n}} else ;", src);
                parts = st(Stmt::If(IfStmt { test: id("w"), consequent: Box::new(Stmt::Block(parts)), alternate: Some(Box::new(Stmt::Empty)) }));
            }
            9 => {
                src = format!("for (;;) {{{}\n}}", src);
                parts = st(Stmt::For(ForStmt { init: None, test: None, update: None, body: Box::new(Stmt::Block(parts)) }));
            }
            _ => {
                src = format!("with (w) {{{}\n}}", src);
                parts = st(Stmt::With(WithStmt { object: id("w"), body: Box::new(Stmt::Block(parts)) }));
            }
        }
    }
    let fail = differ(&Program::Script(parts), &parse(&src, false));
    Outcome::Done(Case { input: src, nontrivial: true, fail, checks: 2 })
}

/// texts that are sensitive to what was there before: (text, accepted on its own)
const PROBES: &[(&str, bool)] = &[
    ("yield = 1;", true),
    ("var yield;", true),
    ("await(1);", true),
    ("var await;", true),
    ("with (a) b;", true),
    ("delete a;", true),
    ("eval = 1;", true),
    ("var arguments, eval;", true),
    ("var static, let, package, interface;", true),
    ("if (a) function f1() {}", true),
    ("x = a in b;", true),
    ("var q = a in b;", true),
    ("for (var i = (a in b); ;) break;", true),
    ("for (x in a in b) ;", true),
    ("q: q1: for (;;) { continue q; }", true),
    ("(a);", true),
    ("(a, b) => a;", true),
    ("({ a, b } = c);", true),
    ("({ a: b });", true),
    ("[a] = b;", true),
    ("a = b;", true),
    ("a++;", true),
    ("async (a) => await a;", true),
    ("async(a);", true),
    ("function f2() { \"use strict\"; }", true),
    ("function* f3() { yield; }", true),
    ("let\nlet1 = 1;", true),
    ("017;", true),
    ("'use strict';", true),
    ("return;", false),
    ("new.target;", false),
    ("await x;", false),
    ("yield x;", false),
    ("super();", false),
    ("super.x;", false),
    ("a b;", false),
    ("1 = 2;", false),
    ("(a, b) = 1;", false),
    ("(a);)", false),
    ("for (var i = 0 in {} of a) ;", false),
    ("w9: w9: ;", false),
    ("const c9;", false),
    ("let [a9];", false),
];

fn probes(t: &mut Tape) -> Outcome {
    t.feat("probe after a program");
    let mut p = leaky();
    if t.chance(1, 2) {
        // strict regions that must end
        p.dirs = 4;
    }
    let cx = Cx::script();
    let mut g = G::new(t, p.clone(), cx);
    // the program itself stays sloppy and without directives: only functions get them
    g.p.dirs = 0;
    let d = p.dirs;
    let prog = g.program_inner_dirs(d);
    let r = match render_simple(t, &prog.toks) {
        Some(r) => r,
        None => return Outcome::Discard(BAD),
    };
    let before = parse(&r.src, false);
    let parts = match before {
        Out::Ok(Program::Script(v)) => v,
        o => return Outcome::Done(Case { input: r.src, nontrivial: true, fail: Some(format!("valid text is not accepted: {}", o.short())), checks: 1 }),
    };
    let (probe, _) = *t.pick(PROBES);
    // a directive is only one at the start
    let lead = "0;\n";
    let alone = parse(&format!("{}{}", lead, probe), false);
    let src = format!("{}\n{}", r.src, probe);
    let both = parse(&src, false);
    let fail = match (alone, both) {
        (Out::Ok(Program::Script(a)), Out::Ok(Program::Script(b))) => {
            let mut w = parts;
            w.extend(a.into_iter().skip(1));
            if w == b {
                None
            } else {
                Some(format!("{:?} parses differently after this program: {}", probe, diff(&format!("{:?}", w), &format!("{:?}", b))))
            }
        }
        (Out::Err(..), Out::Err(..)) => None,
        (a, b) => Some(format!("{:?} on its own: {}; after this program: {}", probe, clip(&a.short(), 300), clip(&b.short(), 300))),
    };
    Outcome::Done(Case { input: src, nontrivial: true, fail, checks: 3 })
}

/// the probes do what the table says
pub fn c12_fixed() -> Vec<Case> {
    PROBES
        .iter()
        .map(|(s, ok)| {
            let o = parse(s, false);
            let fail = match (&o, ok) {
                (Out::Panic(m), _) => Some(format!("panic: {}", m)),
                (o, true) if !o.is_ok() => Some(format!("valid text is not accepted: {}", o.short())),
                (o, false) if o.is_ok() => Some("an invalid text is accepted".to_string()),
                _ => None,
            };
            Case { input: s.to_string(), nontrivial: true, fail, checks: 1 }
        })
        .collect()
}

// ---- C13 --------------------------------------------------------------------------------
type Run = (Vec<String>, Option<String>);

fn step<CH: CommentHandler>(mut p: Parser<CH>, tail: bool) -> Run {
    let mut v = vec![];
    loop {
        match p.next() {
            None => {
                if tail {
                    for _ in 0..3 {
                        if let Some(x) = p.next() {
                            v.push(format!("after the end: {:?}", x));
                        }
                    }
                }
                return (v, None);
            }
            Some(Ok(x)) => v.push(format!("{:?}", x)),
            Some(Err(e)) => return (v, Some(format!("{:?} / {}", e, e))),
        }
    }
}
fn whole<CH: CommentHandler>(mut p: Parser<CH>) -> (Option<(bool, Vec<String>)>, Option<String>) {
    match p.parse() {
        Ok(Program::Script(v)) => (Some((false, v.iter().map(|x| format!("{:?}", x)).collect())), None),
        Ok(Program::Mod(v)) => (Some((true, v.iter().map(|x| format!("{:?}", x)).collect())), None),
        Err(e) => (None, Some(format!("{:?} / {}", e, e))),
    }
}

pub fn c13(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.items = (0, 6);
    p.fuel = (6, 50);
    let prog = program(t, &p);
    let mut toks = prog.toks.clone();
    let broken = t.chance(1, 3) && !toks.is_empty();
    // where the first broken item starts
    let mut upto = prog.parts.len();
    if broken {
        t.feat("invalid text");
        let i = t.below(toks.len() as u32) as usize;
        match t.below(3) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let j = t.below(toks.len() as u32) as usize;
                let x = toks[j].clone();
                toks.insert(i, x);
            }
            _ => toks.truncate(i),
        }
        upto = prog.bounds.iter().filter(|b| **b <= i).count().saturating_sub(2);
    }
    let style = if t.chance(1, 2) { Style::Comments } else { crate::props::simple_style(t) };
    let r = Layout::with(t, style, true, NLS.len(), 0).render(&toks);
    if !scans(&r, &toks) {
        return Outcome::Discard(BAD);
    }
    let src = r.src.clone();
    let module = prog.module;
    let tol = broken && t.chance(1, 3);
    let order = t.below(6);
    let split = t.below(8) as usize;
    let mut checks = 0;
    let s = src.clone();
    let build = move |order: u32| {
        let mut b = Builder::new();
        match order {
            0 => {
                b.set_js(s.as_str());
                b.set_module(module);
                b.set_tolerant(tol);
            }
            1 => {
                b.set_module(module);
                b.set_tolerant(tol);
                b.set_js(s.clone());
            }
            2 => {
                b.tolerant(tol).module(module).js(s.as_str());
            }
            3 => {
                b.js(s.clone()).tolerant(tol).module(module);
            }
            4 => {
                // the last setting counts
                b.js("other").module(!module).tolerant(!tol).module(module).js(s.as_str()).tolerant(tol);
            }
            _ => {
                b.set_tolerant(tol);
                b.js(s.as_str()).module(module);
            }
        }
        b
    };
    let seen: Seen = Rc::new(RefCell::new(vec![]));
    let seen2 = seen.clone();
    let res: Out<Option<String>> = guard(src.len() * 20 + 1000, move || {
        let fail = |s: String| Ok(Some(s));
        // the reference run
        let b = build(0);
        let reference = match b.build() {
            Ok(p) => Ok(step(p, true)),
            Err(e) => Err(format!("{:?} / {}", e, e)),
        };
        // the same builder again: deterministic, and building does not use it up
        for o in &[0, order] {
            let b = build(*o);
            let again = match b.build() {
                Ok(p) => Ok(step(p, false)),
                Err(e) => Err(format!("{:?} / {}", e, e)),
            };
            if again != reference {
                return fail(format!("setter order {}: {:?} instead of {:?}", o, again, reference));
            }
            let all = match b.build() {
                Ok(p) => Ok(whole(p)),
                Err(e) => Err(format!("{:?} / {}", e, e)),
            };
            let expect = match &reference {
                Ok((v, None)) => Ok((Some((module, v.clone())), None)),
                Ok((_, Some(e))) => Ok((None, Some(e.clone()))),
                Err(e) => Err(e.clone()),
            };
            if all != expect {
                return fail(format!("parse gives {:?}, the iterator {:?}", all, reference));
            }
            // with a comment handler
            let s3 = seen2.clone();
            let with = match b.with_comment_handler(move |i| note(&s3, i)) {
                Ok(p) => Ok(step(p, true)),
                Err(e) => Err(format!("{:?} / {}", e, e)),
            };
            if with != reference {
                return fail(format!("with a comment handler {:?} instead of {:?}", with, reference));
            }
        }
        // the short constructor
        if !module && !tol {
            let n = match Parser::new(&src) {
                Ok(p) => Ok(step(p, true)),
                Err(e) => Err(format!("{:?} / {}", e, e)),
            };
            if n != reference {
                return fail(format!("Parser::new gives {:?} instead of {:?}", n, reference));
            }
        }
        // some steps, then parse
        if let Ok((items, err)) = &reference {
            let b = build(order);
            let mut p = b.build()?;
            let k = split.min(items.len());
            for i in 0..k {
                match p.next() {
                    Some(Ok(x)) if format!("{:?}", x) == items[i] => (),
                    x => return fail(format!("step {} gives {:?}", i, x.map(|x| format!("{:?}", x)))),
                }
            }
            let rest = whole(p);
            let want = match err {
                None => (Some((module, items[k..].to_vec())), None),
                Some(e) => (None, Some(e.clone())),
            };
            if rest != want {
                return fail(format!("after {} steps parse gives {:?} instead of {:?}", k, rest, want));
            }
        }
        // items before an error come unchanged
        if let Ok((items, _)) = &reference {
            let _ = items;
        }
        Ok(None)
    });
    checks += 9;
    let mut fail = match res {
        Out::Ok(x) => x,
        Out::Err(e, _) => Some(format!("the builder fails once: {}", e)),
        Out::Panic(m) => Some(format!("panic: {}", m)),
    };
    if fail.is_none() {
        // what the iterator yields before the broken item
        match iterate(&r.src, module, tol) {
            Out::Ok((items, err)) => {
                let n = upto.min(items.len());
                if !broken && (items != prog.parts || err.is_some()) {
                    fail = Some(format!("the iterator gives {:?} {:?} instead of {:?}", clip(&format!("{:?}", items), 500), err, clip(&format!("{:?}", prog.parts), 500)));
                } else if items.len() < upto || items[..n] != prog.parts[..n] {
                    fail = Some(format!("the items before the error are {:?} instead of {:?}", clip(&format!("{:?}", items), 500), clip(&format!("{:?}", &prog.parts[..upto]), 500)));
                }
            }
            Out::Err(e, _) if upto > 0 || !broken => fail = Some(format!("nothing is yielded before the error: {}", e)),
            _ => (),
        }
    }
    Outcome::Done(Case { nontrivial: toks.len() >= 6, input: r.src, fail, checks })
}

// ---- C19 --------------------------------------------------------------------------------
const RENAMABLE: &[&str] = &["b", "c", "x", "foo", "bar1", "iff", "newt", "ofx", "int", "k", "p", "q"];
pub fn c19(t: &mut Tape) -> Outcome {
    let mut p = Profile::base();
    p.fuel = (6, 40);
    if t.chance(2, 3) {
        t.feat("names from the generator");
        p.ctxt = 12;
        p.modules = 4;
        p = p.up_e(&[IDENT, ARROW, AARROW, MEMBER, OBJECT, ASSIGN], 2).up_s(&[S_LABEL, S_LEX, S_VAR, S_FORIN, S_FOROF], 2);
        let prog = program(t, &p);
        let r = match render_simple(t, &prog.toks) {
            Some(r) => r,
            None => return Outcome::Discard(BAD),
        };
        let fail = differ(&prog.program(), &parse(&r.src, prog.module));
        let nt = t.feats.contains(&"contextual name");
        return Outcome::Done(Case { input: r.src, nontrivial: nt, fail, checks: 1 });
    }
    t.feat("renaming");
    p.ctxt = 0;
    p.dirs = 0;
    p.modules = 3;
    let prog = program(t, &p);
    let have: Vec<&str> = RENAMABLE.iter().copied().filter(|n| prog.toks.iter().any(|k| k.k == TK::Word && !k.kw && k.s == *n)).collect();
    if have.is_empty() {
        return Outcome::Discard("no name to rename");
    }
    let from = *t.pick(&have);
    let strict = prog.module || prog.toks.iter().any(|k| k.kw && k.s == "class");
    let mut pool = vec!["async", "get", "set", "of", "from", "as", "target", "undefined", "meta"];
    if !strict {
        pool.extend_from_slice(&["static", "implements", "interface", "package", "private", "protected", "public"]);
    }
    let to = *t.pick(&pool);
    if prog.toks.iter().any(|k| k.k == TK::Word && k.s == to) {
        return Outcome::Discard("the new name is in use");
    }
    let mut toks = prog.toks.clone();
    for k in toks.iter_mut() {
        if k.k == TK::Word && !k.kw && k.s == from {
            k.s = to.to_string();
        }
    }
    if to == "async" {
        for i in 1..toks.len() {
            // `for (async of` was never meant to be, nor is `async` in front of a function
            if toks[i - 1].is("(") && toks[i].is("async") && toks.get(i + 1).map_or(false, |n| n.is("of")) {
                return Outcome::Discard("for (async of");
            }
        }
    }
    let (a, b) = match (render_simple(t, &prog.toks), render_simple(t, &toks)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::Discard(BAD),
    };
    let x = parse(&a.src, prog.module);
    let y = parse(&b.src, prog.module);
    let fail = match (x, y) {
        (Out::Ok(x), Out::Ok(y)) => {
            let w = format!("{:?}", x).replace(&format!("\"{}\"", from), &format!("\"{}\"", to));
            let g = format!("{:?}", y);
            if w == g {
                None
            } else {
                Some(format!("renaming {} to {} changes more than the name: {}", from, to, diff(&w, &g)))
            }
        }
        (Out::Ok(_), o) => Some(format!("with {} renamed to {} the text is not accepted: {}", from, to, o.short())),
        (o, _) => return Outcome::Done(Case { input: a.src, nontrivial: true, fail: Some(format!("valid text is not accepted: {}", o.short())), checks: 1 }),
    };
    Outcome::Done(Case { input: b.src, nontrivial: true, fail, checks: 2 })
}
