//! C02: operator sequences against an independent precedence-climbing reference.
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::gen::{bin, ident_e, member, ASNOPS, BINOPS, UNOPS};
use crate::tape::Tape;
use crate::tok::*;
use resast::prelude::*;

#[derive(Clone, Debug)]
pub enum It {
    /// operand with its tokens; `true` when it may be assigned to
    Val(Expr, Vec<(TK, &'static str)>, bool),
    Pre(usize),
    PreUp(bool),
    PostUp(bool),
    Bin(usize),
    And,
    Or,
    Q,
    Colon,
    Asn(usize),
    Comma,
    Open,
    Close,
}

fn names(t: &mut Tape) -> &'static str {
    *t.pick(&["a", "b", "c", "x", "y"])
}

fn operand(t: &mut Tape, out: &mut Vec<It>, depth: u32, unary: &mut bool, plain: bool) {
    *unary = false;
    if !plain {
        // prefix operators
        let n = t.weighted(&[10, 3, 1, 1]);
        for _ in 0..n {
            *unary = true;
            out.push(It::Pre(t.below(UNOPS.len() as u32) as usize));
        }
    }
    let k = if plain { t.below(3) } else { t.weighted(&[8, 2, 2, 2, 2, 3]) as u32 };
    let mut target = true;
    match k {
        0 => {
            let n = names(t);
            out.push(It::Val(ident_e(n), vec![(TK::Word, n)], true));
        }
        1 => {
            let n = names(t);
            out.push(It::Val(member(ident_e(n), "p"), vec![(TK::Word, n), (TK::Punct, "."), (TK::Word, "p")], true));
        }
        2 => {
            let n = names(t);
            out.push(It::Val(
                Expr::Member(MemberExpr { object: Box::new(ident_e(n)), property: Box::new(ident_e("k")), computed: true }),
                vec![(TK::Word, n), (TK::Punct, "["), (TK::Word, "k"), (TK::Punct, "]")],
                true,
            ));
        }
        3 => {
            target = false;
            out.push(It::Val(Expr::Literal(Literal::Number("1".into())), vec![(TK::Num, "1")], false));
        }
        4 => {
            target = false;
            let n = names(t);
            out.push(It::Val(
                Expr::Call(CallExpr { callee: Box::new(ident_e(n)), arguments: vec![] }),
                vec![(TK::Word, n), (TK::Punct, "("), (TK::Punct, ")")],
                false,
            ));
        }
        _ => {
            target = false;
            if depth < 3 {
                out.push(It::Open);
                seq(t, out, depth + 1, true, true);
                out.push(It::Close);
            } else {
                out.push(It::Val(Expr::This, vec![(TK::Word, "this")], false));
            }
        }
    }
    if !plain && target {
        match t.weighted(&[12, 1, 1]) {
            1 => out.push(It::PostUp(t.chance(1, 2))),
            2 => {
                // prefix update goes right in front of the operand
                let v = out.pop().unwrap();
                out.push(It::PreUp(t.chance(1, 2)));
                out.push(v);
            }
            _ => (),
        }
    }
}

/// a flat sequence; `in_ok`: the `in` operator may be used; `comma`: commas may be used
pub fn seq(t: &mut Tape, out: &mut Vec<It>, depth: u32, in_ok: bool, comma: bool) {
    let n = 1 + if depth == 0 { 1 + t.count(6, 24) } else { t.count(2, 6) };
    let mut pending = 0;
    let mut unary = false;
    // may the next operand be the left side of an assignment?
    let mut lhs_ok = true;
    for i in 0..n {
        let assign_next = lhs_ok && i + 1 < n && t.chance(1, 5);
        operand(t, out, depth, &mut unary, assign_next);
        if i + 1 == n {
            break;
        }
        if assign_next || t.chance(1, 400) {
            out.push(It::Asn(t.below(ASNOPS.len() as u32) as usize));
            lhs_ok = true;
            continue;
        }
        match t.weighted(&[12, 2, 2, 2, if pending > 0 { 3 } else { 0 }, if pending == 0 && comma { 2 } else { 0 }]) {
            0 => {
                let k = loop {
                    let k = t.below(BINOPS.len() as u32) as usize;
                    if (BINOPS[k].0 == "in" && !in_ok && pending == 0) || (BINOPS[k].0 == "**" && unary) {
                        break 0;
                    }
                    break k;
                };
                out.push(It::Bin(k));
                lhs_ok = false;
            }
            1 => {
                out.push(It::And);
                lhs_ok = false;
            }
            2 => {
                out.push(It::Or);
                lhs_ok = false;
            }
            3 => {
                out.push(It::Q);
                pending += 1;
                lhs_ok = true;
            }
            4 => {
                out.push(It::Colon);
                pending -= 1;
                lhs_ok = true;
            }
            _ => {
                out.push(It::Comma);
                lhs_ok = true;
            }
        }
    }
    while pending > 0 {
        out.push(It::Colon);
        operand(t, out, depth, &mut unary, false);
        pending -= 1;
    }
}

// ---- the reference ----------------------------------------------------------------------
struct Ref<'a> {
    it: &'a [It],
    at: usize,
}
#[derive(Debug, PartialEq)]
pub enum Bad {
    /// assignment to something that is no target
    Target,
    /// not an expression of the language for another reason
    Other,
}
type R<T> = Result<T, Bad>;

fn is_target(e: &Expr) -> bool {
    matches!(e, Expr::Ident(_) | Expr::Member(_))
}

impl<'a> Ref<'a> {
    fn peek(&self) -> Option<&'a It> {
        self.it.get(self.at)
    }
    fn comma(&mut self) -> R<Expr> {
        let first = self.assign()?;
        let mut xs = vec![first];
        while let Some(It::Comma) = self.peek() {
            self.at += 1;
            xs.push(self.assign()?);
        }
        Ok(if xs.len() == 1 { xs.pop().unwrap() } else { Expr::Sequence(xs) })
    }
    fn assign(&mut self) -> R<Expr> {
        let start = self.at;
        let (left, simple) = self.cond()?;
        if let Some(It::Asn(k)) = self.peek() {
            if !simple || !is_target(&left) {
                return Err(Bad::Target);
            }
            let _ = start;
            self.at += 1;
            let right = self.assign()?;
            return Ok(Expr::Assignment(AssignmentExpr {
                operator: ASNOPS[*k].1,
                left: AssignmentLeft::Expr(Box::new(left)),
                right: Box::new(right),
            }));
        }
        Ok(left)
    }
    /// the expression and whether it is a single operand
    fn cond(&mut self) -> R<(Expr, bool)> {
        let (test, simple) = self.binary(3)?;
        if let Some(It::Q) = self.peek() {
            self.at += 1;
            let yes = self.assign()?;
            match self.peek() {
                Some(It::Colon) => self.at += 1,
                _ => return Err(Bad::Other),
            }
            let no = self.assign()?;
            return Ok((
                Expr::Conditional(ConditionalExpr { test: Box::new(test), alternate: Box::new(no), consequent: Box::new(yes) }),
                false,
            ));
        }
        Ok((test, simple))
    }
    fn binary(&mut self, min: u32) -> R<(Expr, bool)> {
        let (mut left, mut simple) = self.unary()?;
        loop {
            let prec = match self.peek() {
                Some(It::Bin(k)) => BINOPS[*k].2,
                Some(It::And) => 4,
                Some(It::Or) => 3,
                _ => return Ok((left, simple)),
            };
            if prec < min {
                return Ok((left, simple));
            }
            let op = self.peek().unwrap();
            self.at += 1;
            let (right, _) = self.binary(if prec == 13 { 13 } else { prec + 1 })?;
            simple = false;
            left = match op {
                It::Bin(k) => bin(BINOPS[*k].1, left, right),
                It::And => Expr::Logical(LogicalExpr { operator: LogicalOperator::And, left: Box::new(left), right: Box::new(right) }),
                _ => Expr::Logical(LogicalExpr { operator: LogicalOperator::Or, left: Box::new(left), right: Box::new(right) }),
            };
        }
    }
    fn unary(&mut self) -> R<(Expr, bool)> {
        match self.peek() {
            Some(It::Pre(k)) => {
                self.at += 1;
                let (x, _) = self.unary()?;
                Ok((Expr::Unary(UnaryExpr { operator: UNOPS[*k].1, prefix: true, argument: Box::new(x) }), false))
            }
            Some(It::PreUp(inc)) => {
                self.at += 1;
                let (x, _) = self.unary()?;
                if !is_target(&x) {
                    return Err(Bad::Target);
                }
                let operator = if *inc { UpdateOperator::Increment } else { UpdateOperator::Decrement };
                Ok((Expr::Update(UpdateExpr { operator, argument: Box::new(x), prefix: true }), false))
            }
            _ => {
                let x = match self.peek() {
                    Some(It::Val(e, _, _)) => {
                        self.at += 1;
                        e.clone()
                    }
                    Some(It::Open) => {
                        self.at += 1;
                        let e = self.comma()?;
                        match self.peek() {
                            Some(It::Close) => self.at += 1,
                            _ => return Err(Bad::Other),
                        }
                        e
                    }
                    _ => return Err(Bad::Other),
                };
                if let Some(It::PostUp(inc)) = self.peek() {
                    self.at += 1;
                    if !is_target(&x) {
                        return Err(Bad::Target);
                    }
                    let operator = if *inc { UpdateOperator::Increment } else { UpdateOperator::Decrement };
                    return Ok((Expr::Update(UpdateExpr { operator, argument: Box::new(x), prefix: false }), false));
                }
                Ok((x, true))
            }
        }
    }
}

pub fn reference(it: &[It]) -> R<Expr> {
    let mut r = Ref { it, at: 0 };
    let e = r.comma()?;
    if r.at != it.len() {
        return Err(Bad::Other);
    }
    Ok(e)
}

pub fn tokens(it: &[It]) -> Vec<Tok> {
    let mut v = vec![];
    for i in it {
        let mut one = |k: TK, s: &str| v.push(Tok::new(k, s));
        match i {
            It::Val(_, ts, _) => ts.iter().for_each(|(k, s)| one(*k, s)),
            It::Pre(k) => {
                let s = UNOPS[*k].0;
                one(if s.chars().all(|c| c.is_alphabetic()) { TK::Word } else { TK::Punct }, s)
            }
            It::PreUp(i) => one(TK::Punct, if *i { "++" } else { "--" }),
            It::PostUp(i) => {
                one(TK::Punct, if *i { "++" } else { "--" });
                v.last_mut().unwrap().nonl = true;
            }
            It::Bin(k) => {
                let s = BINOPS[*k].0;
                one(if s.chars().all(|c| c.is_alphabetic()) { TK::Word } else { TK::Punct }, s)
            }
            It::And => one(TK::Punct, "&&"),
            It::Or => one(TK::Punct, "||"),
            It::Q => one(TK::Punct, "?"),
            It::Colon => one(TK::Punct, ":"),
            It::Asn(k) => one(TK::Punct, ASNOPS[*k].0),
            It::Comma => one(TK::Punct, ","),
            It::Open => one(TK::Punct, "("),
            It::Close => one(TK::Punct, ")"),
        }
    }
    v
}

/// every operation in parentheses of its own
fn full(e: &Expr, v: &mut Vec<Tok>, it: &[It]) {
    let p = |v: &mut Vec<Tok>, s: &str| v.push(Tok::new(TK::Punct, s));
    let op = |v: &mut Vec<Tok>, s: &str| {
        v.push(Tok::new(if s.chars().all(|c| c.is_alphabetic()) { TK::Word } else { TK::Punct }, s))
    };
    match e {
        Expr::Sequence(xs) => {
            p(v, "(");
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    p(v, ",");
                }
                full(x, v, it);
            }
            p(v, ")");
        }
        Expr::Assignment(a) => {
            p(v, "(");
            if let AssignmentLeft::Expr(l) = &a.left {
                full(l, v, it);
            }
            let s = ASNOPS.iter().find(|x| x.1 == a.operator).unwrap().0;
            p(v, s);
            full(&a.right, v, it);
            p(v, ")");
        }
        Expr::Conditional(c) => {
            p(v, "(");
            full(&c.test, v, it);
            p(v, "?");
            full(&c.consequent, v, it);
            p(v, ":");
            full(&c.alternate, v, it);
            p(v, ")");
        }
        Expr::Binary(b) => {
            p(v, "(");
            full(&b.left, v, it);
            op(v, BINOPS.iter().find(|x| x.1 == b.operator).unwrap().0);
            full(&b.right, v, it);
            p(v, ")");
        }
        Expr::Logical(b) => {
            p(v, "(");
            full(&b.left, v, it);
            p(v, if b.operator == LogicalOperator::And { "&&" } else { "||" });
            full(&b.right, v, it);
            p(v, ")");
        }
        Expr::Unary(u) => {
            p(v, "(");
            op(v, UNOPS.iter().find(|x| x.1 == u.operator).unwrap().0);
            full(&u.argument, v, it);
            p(v, ")");
        }
        Expr::Update(u) => {
            p(v, "(");
            let s = if u.operator == UpdateOperator::Increment { "++" } else { "--" };
            if u.prefix {
                p(v, s);
                full(&u.argument, v, it);
            } else {
                full(&u.argument, v, it);
                p(v, s);
                v.last_mut().unwrap().nonl = true;
            }
            p(v, ")");
        }
        Expr::Ident(s) => v.push(Tok::new(TK::Word, s)),
        Expr::This => v.push(Tok::new(TK::Word, "this")),
        Expr::Literal(_) => v.push(Tok::new(TK::Num, "1")),
        Expr::Call(c) => {
            full(&c.callee, v, it);
            p(v, "(");
            p(v, ")");
        }
        Expr::Member(m) => {
            full(&m.object, v, it);
            if m.computed {
                p(v, "[");
                full(&m.property, v, it);
                p(v, "]");
            } else {
                p(v, ".");
                full(&m.property, v, it);
            }
        }
        _ => unreachable!(),
    }
}

/// put the expression somewhere; returns tokens and items
fn place(kind: u32, e: &Expr, x: Vec<Tok>) -> (Vec<Tok>, Vec<ProgramPart>) {
    let w = |s: &str| Tok::new(TK::Word, s);
    let p = |s: &str| Tok::new(TK::Punct, s);
    let mut v = vec![];
    let e = e.clone();
    let stmt = |s: Stmt| vec![ProgramPart::Stmt(s)];
    let empty = || Box::new(Stmt::Empty);
    match kind {
        0 => {
            v.extend(x);
            v.push(Tok::new(TK::Semi, ";"));
            (v, stmt(Stmt::Expr(e)))
        }
        1 => {
            v.extend(vec![w("while"), p("(")]);
            v.extend(x);
            v.extend(vec![p(")"), p(";")]);
            (v, stmt(Stmt::While(WhileStmt { test: e, body: empty() })))
        }
        2 => {
            let mut t = Tok::new(TK::Word, "throw");
            t.kw = true;
            v.push(t);
            let mut x = x;
            x[0].nonl = true;
            v.extend(x);
            v.push(Tok::new(TK::Semi, ";"));
            (v, stmt(Stmt::Throw(e)))
        }
        3 => {
            v.extend(vec![w("z"), p("[")]);
            v.extend(x);
            v.extend(vec![p("]"), Tok::new(TK::Semi, ";")]);
            (v, stmt(Stmt::Expr(Expr::Member(MemberExpr { object: Box::new(ident_e("z")), property: Box::new(e), computed: true }))))
        }
        4 => {
            v.extend(vec![w("switch"), p("("), w("z"), p(")"), p("{"), w("case")]);
            v.extend(x);
            v.extend(vec![p(":"), p("}")]);
            (v, stmt(Stmt::Switch(SwitchStmt { discriminant: ident_e("z"), cases: vec![SwitchCase { test: Some(e), consequent: vec![] }] })))
        }
        5 => {
            v.extend(vec![w("for"), p("("), p(";")]);
            v.extend(x);
            v.extend(vec![p(";"), p(")"), p(";")]);
            (v, stmt(Stmt::For(ForStmt { init: None, test: Some(e), update: None, body: empty() })))
        }
        6 => {
            v.extend(vec![w("for"), p("("), p(";"), p(";")]);
            v.extend(x);
            v.extend(vec![p(")"), p(";")]);
            (v, stmt(Stmt::For(ForStmt { init: None, test: None, update: Some(e), body: empty() })))
        }
        7 => {
            // no `in` here
            v.extend(vec![w("for"), p("(")]);
            v.extend(x);
            v.extend(vec![p(";"), p(";"), p(")"), p(";")]);
            (v, stmt(Stmt::For(ForStmt { init: Some(LoopInit::Expr(e)), test: None, update: None, body: empty() })))
        }
        8 => {
            v.push(Tok::new(TK::TplHead, "`${"));
            v.extend(x);
            v.extend(vec![Tok::new(TK::TplTail, "}`"), Tok::new(TK::Semi, ";")]);
            let el = |tail: bool, raw: &str| TemplateElement { tail, cooked: String::new(), raw: raw.to_string() };
            (
                v,
                stmt(Stmt::Expr(Expr::Literal(Literal::Template(TemplateLiteral {
                    quasis: vec![el(false, "`${"), el(true, "}`")],
                    expressions: vec![e],
                })))),
            )
        }
        // from here on without top level commas
        9 => {
            v.extend(vec![w("var"), w("z"), p("=")]);
            v.extend(x);
            v.push(Tok::new(TK::Semi, ";"));
            (v, stmt(Stmt::Var(vec![VariableDecl { id: Pat::Identifier("z".into()), init: Some(e) }])))
        }
        10 => {
            v.extend(vec![w("z"), p("(")]);
            v.extend(x);
            v.extend(vec![p(")"), Tok::new(TK::Semi, ";")]);
            (v, stmt(Stmt::Expr(Expr::Call(CallExpr { callee: Box::new(ident_e("z")), arguments: vec![e] }))))
        }
        11 => {
            v.extend(vec![p("["), w("z"), p(",")]);
            v.extend(x);
            v.extend(vec![p("]"), Tok::new(TK::Semi, ";")]);
            (v, stmt(Stmt::Expr(Expr::Array(vec![Some(ident_e("z")), Some(e)]))))
        }
        _ => {
            // no `in` here
            v.extend(vec![w("for"), p("("), w("var"), w("z"), p("=")]);
            v.extend(x);
            v.extend(vec![p(";"), p(";"), p(")"), p(";")]);
            (
                v,
                stmt(Stmt::For(ForStmt {
                    init: Some(LoopInit::Variable(VariableKind::Var, vec![VariableDecl { id: Pat::Identifier("z".into()), init: Some(e) }])),
                    test: None,
                    update: None,
                    body: empty(),
                })),
            )
        }
    }
}

fn judge(it: &[It], kind: u32, style: Style, t: &mut Tape) -> Outcome {
    let r = reference(it);
    let ops = it.iter().filter(|i| !matches!(i, It::Val(..) | It::Open | It::Close)).count();
    let dummy = ident_e("z");
    let e = match r {
        Ok(ref e) => e,
        Err(Bad::Other) => return Outcome::Discard("not an expression"),
        Err(Bad::Target) => &dummy,
    };
    let (toks, parts) = place(kind, e, tokens(it));
    let rd = Layout::with(t, style, false, 1, 0).render(&toks);
    if !scans(&rd, &toks) {
        return Outcome::Discard("scanner splits the text differently");
    }
    let got = parse(&rd.src, false);
    let mut checks = 1;
    let fail = if r.is_err() {
        match got {
            Out::Ok(_) => Some("assignment to something that is no target is accepted".to_string()),
            Out::Panic(m) => Some(format!("panic: {}", m)),
            _ => None,
        }
    } else {
        let want = Program::Script(parts);
        match got {
            Out::Ok(ref x) if *x == want => {
                // the same with every operation in parentheses
                let mut f = vec![];
                full(e, &mut f, it);
                let (ft, _) = place(kind, e, f);
                let fr = plain(&ft);
                if scans(&fr, &ft) {
                    checks += 1;
                    match parse(&fr.src, false) {
                        Out::Ok(ref x) if *x == want => None,
                        Out::Ok(x) => Some(format!(
                            "parentheses change the tree of {:?}: {}",
                            clip(&fr.src, 300),
                            diff(&format!("{:?}", want), &format!("{:?}", x))
                        )),
                        o => Some(format!("with all parentheses, {:?} is not accepted: {}", clip(&fr.src, 300), o.short())),
                    }
                } else {
                    None
                }
            }
            Out::Ok(x) => Some(format!("wrong grouping: {}", diff(&format!("{:?}", want), &format!("{:?}", x)))),
            o => Some(format!("a valid operator sequence is not accepted: {}", o.short())),
        }
    };
    Outcome::Done(Case { input: rd.src, nontrivial: ops >= 2, fail, checks })
}

pub fn c02(t: &mut Tape) -> Outcome {
    let kind = t.below(13);
    let mut it = vec![];
    seq(t, &mut it, 0, kind != 7 && kind != 12, kind < 9);
    let style = crate::props::simple_style(t);
    judge(&it, kind, style, t)
}

/// every ordered pair and triple of binary and logical operators, and every pair that
/// involves an assignment, a conditional, a comma, or a prefix or postfix operator
pub fn c02_fixed() -> Vec<Case> {
    let mut t = Tape::replay(vec![]);
    let mut out = vec![];
    let v = |s: &'static str| It::Val(ident_e(s), vec![(TK::Word, s)], true);
    let mut ops: Vec<It> = (0..BINOPS.len()).map(It::Bin).collect();
    ops.push(It::And);
    ops.push(It::Or);
    let mut add = |it: Vec<It>| {
        if let Outcome::Done(c) = judge(&it, 0, Style::Plain, &mut t) {
            out.push(c);
        }
    };
    for a in &ops {
        for b in &ops {
            add(vec![v("a"), a.clone(), v("b"), b.clone(), v("c")]);
            for c in &ops {
                add(vec![v("a"), a.clone(), v("b"), b.clone(), v("c"), c.clone(), v("x")]);
            }
            // conditional parts
            add(vec![v("a"), a.clone(), v("b"), It::Q, v("c"), b.clone(), v("x"), It::Colon, v("y"), a.clone(), v("z")]);
            // parentheses against the grain
            add(vec![v("a"), a.clone(), It::Open, v("b"), b.clone(), v("c"), It::Close]);
            add(vec![It::Open, v("a"), a.clone(), v("b"), It::Close, b.clone(), v("c")]);
        }
        for k in 0..UNOPS.len() {
            let pow = matches!(a, It::Bin(k) if BINOPS[*k].0 == "**");
            if !pow {
                add(vec![It::Pre(k), v("a"), a.clone(), v("b")]);
            }
            add(vec![v("a"), a.clone(), It::Pre(k), v("b")]);
            for j in 0..UNOPS.len() {
                add(vec![v("a"), a.clone(), It::Pre(k), It::Pre(j), v("b")]);
            }
        }
        for up in &[true, false] {
            add(vec![It::PreUp(*up), v("a"), a.clone(), v("b")]);
            add(vec![v("a"), It::PostUp(*up), a.clone(), v("b")]);
            add(vec![v("a"), a.clone(), It::PreUp(*up), v("b")]);
            add(vec![v("a"), a.clone(), v("b"), It::PostUp(*up)]);
        }
        for k in 0..ASNOPS.len() {
            add(vec![v("a"), It::Asn(k), v("b"), a.clone(), v("c")]);
            add(vec![v("a"), a.clone(), v("b"), It::Asn(k), v("c")]);
            add(vec![v("a"), It::Comma, v("b"), It::Asn(k), v("c"), a.clone(), v("x"), It::Comma, v("y")]);
        }
    }
    for k in 0..ASNOPS.len() {
        for j in 0..ASNOPS.len() {
            add(vec![v("a"), It::Asn(k), v("b"), It::Asn(j), v("c")]);
            add(vec![v("a"), It::Q, v("b"), It::Asn(k), v("c"), It::Colon, v("x"), It::Asn(j), v("y")]);
        }
    }
    for (a, b) in &[(true, true), (true, false), (false, true), (false, false)] {
        add(vec![v("a"), It::PostUp(*a), It::Bin(0), It::PreUp(*b), v("b")]);
        add(vec![v("a"), It::PostUp(*a), It::Bin(1), It::PreUp(*b), v("b")]);
    }
    let q = |x: It| vec![x];
    let mut nest = vec![];
    for mask in 0..3 {
        let mut s = vec![v("a"), It::Q];
        match mask {
            0 => s.extend(vec![v("b"), It::Q, v("c"), It::Colon, v("x"), It::Colon, v("y")]),
            1 => s.extend(vec![v("b"), It::Colon, v("c"), It::Q, v("x"), It::Colon, v("y")]),
            _ => s.extend(vec![v("b"), It::Q, v("c"), It::Colon, v("x"), It::Colon, v("y"), It::Q, v("z"), It::Colon, v("a")]),
        }
        nest.push(s);
    }
    let _ = q;
    for s in nest {
        add(s);
    }
    out
}
