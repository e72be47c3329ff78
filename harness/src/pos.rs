//! Where errors are reported (C18).
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::gen::*;
use crate::meta::BAD;
use crate::tape::Tape;
use crate::tok::*;

/// 1-based line and 0-based byte column of a byte offset, counted from the start of the text.
pub fn place(src: &str, at: usize) -> (usize, usize) {
    let mut line = 1;
    let mut start = 0;
    let mut it = src[..at].char_indices().peekable();
    while let Some((i, c)) = it.next() {
        let next = i + c.len_utf8();
        match c {
            '\r' if it.peek().map(|x| x.1) == Some('\n') => (),
            '\n' | '\r' | '\u{2028}' | '\u{2029}' => {
                line += 1;
                start = next;
            }
            _ => (),
        }
    }
    (line, at - start)
}

/// the bracket that has to be closed next after the first `upto` tokens
fn open(toks: &[Tok], upto: usize) -> Option<char> {
    let mut v = vec![];
    for k in &toks[..upto] {
        match k.k {
            TK::TplHead => v.push('`'),
            TK::TplTail => {
                v.pop();
            }
            TK::Punct => match k.s.as_str() {
                "(" | "[" | "{" => v.push(k.s.chars().next().unwrap()),
                ")" | "]" | "}" => {
                    v.pop();
                }
                _ => (),
            },
            _ => (),
        }
    }
    v.pop()
}

/// tokens nothing but an operand, a name or a bracketed part can follow
fn dangling(k: &Tok) -> bool {
    match k.k {
        TK::Punct => matches!(
            k.s.as_str(),
            "+" | "-" | "/" | "%" | "&" | "|" | "^" | "<<" | ">>" | ">>>" | "&&" | "||" | "==" | "!=" | "===" | "!==" | "<" | ">" | "<=" | ">="
                | "**" | "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "&=" | "|=" | "^=" | "<<=" | ">>=" | ">>>=" | "**=" | "=>" | "." | "..." | "?" | "!" | "~"
        ),
        TK::Word => {
            k.kw && matches!(
                k.s.as_str(),
                "typeof" | "void" | "delete" | "new" | "in" | "instanceof" | "extends" | "case" | "throw" | "if" | "while" | "for" | "switch" | "with" | "var" | "const" | "try" | "finally" | "class"
            )
        }
        _ => false,
    }
}

const CAREFUL: &[&str] = &[
    "eval", "arguments", "yield", "await", "static", "implements", "interface", "package", "private", "protected", "public", "async",
];

pub fn c18(t: &mut Tape) -> Outcome {
    if t.below(4) == 3 {
        return same_token(t);
    }
    let mut p = Profile::base();
    p.fuel = (2, 30);
    p.items = (1, 5);
    p.dirs = 2;
    p.modules = 4;
    p = p.up_e(&[STR, TEMPLATE, FUNC, CLASS, ARROW, OBJECT], 2);
    let prog = program(t, &p);
    let mut toks = prog.toks.clone();
    let n = toks.len();
    let kind = t.below(8);
    let at;
    let mut end = false;
    if kind < 4 {
        // a closing bracket that closes nothing
        at = t.below(n as u32 + 1) as usize;
        let o = open(&toks, at);
        let all: &[&str] = match o {
            Some('(') => &["]", "}"],
            Some('[') => &[")", "}"],
            Some('{') => &[")", "]"],
            Some('`') => &[")", "]"],
            _ => &[")", "]", "}"],
        };
        let s = *t.pick(all);
        toks.insert(at, Tok::new(TK::Punct, s));
        t.feat("mismatched closer");
    } else if kind < 7 {
        let c: Vec<usize> = (0..n).filter(|i| dangling(&toks[*i])).collect();
        if c.is_empty() {
            return Outcome::Discard("nothing to break");
        }
        at = *t.pick(&c) + 1;
        let s = *t.pick(&[")", "]", ";", ",", ":", "="]);
        let p = toks[at - 1].s.clone();
        if p == "for" && s == "=" || p == "try" && s == "{" {
            return Outcome::Discard("nothing to break");
        }
        toks.insert(at, Tok::new(TK::Punct, s));
        t.feat("operand missing");
    } else {
        // the end of the text
        let c: Vec<usize> = (1..=n).filter(|i| open(&toks, *i).is_some() && open(&toks, *i) != Some('`')).collect();
        if c.is_empty() {
            return Outcome::Discard("nothing to break");
        }
        at = *t.pick(&c);
        toks.truncate(at);
        end = true;
        t.feat("cut off");
    }
    if at > 0 {
        // some words are only right if the proper token follows: either may then be blamed
        let k = &toks[at - 1];
        if k.k == TK::Word && (k.s == "let" || k.s == "import" || !k.kw && (crate::plants::RESERVED.contains(&k.s.as_str()) || CAREFUL.contains(&k.s.as_str()))) {
            return Outcome::Discard("after a word that asks for the right successor");
        }
    }
    let lay = t.below(6);
    let r = if lay == 0 {
        plain(&toks)
    } else {
        Layout::new(t).render(&toks)
    };
    if !scans(&r, &toks) {
        return Outcome::Discard(BAD);
    }
    let r = if t.chance(1, 6) { far_down(t, r) } else { r };
    let off = if end {
        r.src.len()
    } else {
        match r.spans[at] {
            Some(s) => s.0,
            None => return Outcome::Discard("the token was left out"),
        }
    };
    let want = place(&r.src, off);
    let what = if end { "the end of the text".to_string() } else { format!("the {:?} at byte {}", toks[at].s, off) };
    let fail = match parse(&r.src, prog.module) {
        Out::Ok(_) => Some(format!("accepted in spite of {}", what)),
        Out::Panic(m) => Some(format!("panic: {}", m)),
        Out::Err(m, pos) => {
            if end && pos.is_none() {
                None
            } else if pos != Some(want) && completed(&toks, at, &r, pos) {
                return Outcome::Discard("an early error of what the token ends");
            } else if pos != Some(want) {
                Some(format!("{} stands at {}:{}, but the error is: {}", what, want.0, want.1, m))
            } else if !m.contains(&format!("{}:{}", want.0, want.1)) {
                Some(format!("the message does not say {}:{}: {}", want.0, want.1, m))
            } else {
                None
            }
        }
    };
    let nontrivial = r.newlines > 0 || want.1 != off;
    Outcome::Done(Case { input: r.src, nontrivial, fail, checks: 1 })
}

/// The token ends an operand, and as it is, without the rest, that is an error of its
/// own: `--1` out of `--1[a]`, `delete a` out of `delete a.b`.
fn completed(toks: &[Tok], at: usize, r: &Rendered, pos: Option<(usize, usize)>) -> bool {
    let pos = match pos {
        Some(p) => p,
        None => return false,
    };
    let j = match (0..at).find(|i| r.spans[*i].map(|s| place(&r.src, s.0)) == Some(pos)) {
        Some(j) => j,
        None => return false,
    };
    let k = &toks[j];
    if !(k.is("++") || k.is("--") || k.is("delete") && k.kw) {
        return false;
    }
    let mut d = 0;
    for (x, k) in toks[j + 1..at].iter().enumerate() {
        match k.s.as_str() {
            "(" | "[" | "{" if k.k == TK::Punct => d += 1,
            ")" | "]" | "}" if k.k == TK::Punct => d -= 1,
            _ => match k.k {
                TK::TplHead => d += 1,
                TK::TplTail => d -= 1,
                TK::Punct if d == 0 && k.s == "*" && toks[j + x].is("function") => (),
                TK::Punct if d == 0 && !matches!(k.s.as_str(), "." | "++" | "--" | "!" | "~" | "+" | "-") => return false,
                TK::Semi if d == 0 => return false,
                _ => (),
            },
        }
        if d < 0 {
            return false;
        }
    }
    d == 0
}

/// An early error is reported at the same token whatever the layout.
fn same_token(t: &mut Tape) -> Outcome {
    let row = crate::errs::early_row(t);
    let mut p = crate::errs::profile();
    let module = (row.cond as usize == crate::plants::module_top as usize) || t.below(16) >= 12;
    if row.cond as usize == crate::plants::no_func as usize {
        p.e[FUNC] = 1;
    }
    p.modules = 0;
    let den = *t.pick(&[1u32, 3, 8]);
    let cx = if module { Cx::module() } else { Cx::script() };
    let mut g = G::new(t, p, cx);
    g.plant = Some(crate::plants::pair(row.slot, row.lvl, row.cond, row.bad.clone(), den));
    let (mut bad, range) = g.program_plant();
    // `let` on a line of its own can be a name
    for i in 1..bad.toks.len() {
        if bad.toks[i - 1].is("let") {
            bad.toks[i].nonl = true;
        }
    }
    if range.is_none() {
        return Outcome::Discard("no place for the plant");
    }
    if !crate::errs::any_lines(&row) {
        crate::errs::one_line(&mut bad.toks);
    }
    let first = bad.toks.iter().position(|k| k.mark).unwrap_or(0);
    let last = bad.toks.iter().rposition(|k| k.mark).unwrap_or(0);
    let a = plain(&bad.toks);
    let mut lay = Layout::new(t);
    lay.omit = 0;
    let b = lay.render(&bad.toks);
    if !scans(&a, &bad.toks) || !scans(&b, &bad.toks) {
        return Outcome::Discard(BAD);
    }
    t.feat("layout");
    let index = |r: &Rendered, pos: Option<(usize, usize)>| -> Option<usize> {
        let pos = pos?;
        if place(&r.src, r.src.len()) == pos {
            return Some(bad.toks.len());
        }
        (0..bad.toks.len()).find(|i| r.spans[*i].map(|s| place(&r.src, s.0)) == Some(pos))
    };
    let fail = match (parse(&a.src, module), parse(&b.src, module)) {
        (Out::Err(m, x), Out::Err(n, y)) => {
            let i = index(&a, x);
            let j = index(&b, y);
            if x.is_none() && y.is_none() {
                None
            } else if i.is_none() || j.is_none() {
                Some(format!("no token stands at the position of the error: {} / {}", m, n))
            } else if i != j {
                Some(format!("on one line ({:?}) the error is at token {:?}: {}; in this layout at token {:?}: {}", clip(&a.src, 400), i, m, j, n))
            } else if i < Some(first) || i > Some(last + 1) {
                Some(format!("the error is at token {:?}, the cause at {} to {}: {}", i, first, last, n))
            } else if y.map_or(false, |y| !n.contains(&format!("{}:{}", y.0, y.1))) {
                Some(format!("the message does not say {:?}: {}", y, n))
            } else {
                None
            }
        }
        (Out::Panic(m), _) | (_, Out::Panic(m)) => Some(format!("panic: {}", m)),
        // whether it is accepted is another property's business
        _ => return Outcome::Discard("a line terminator makes it something else"),
    };
    let nontrivial = b.newlines > 0;
    Outcome::Done(Case { input: b.src, nontrivial, fail, checks: 2 })
}

/// Many lines in front of the text.
fn far_down(t: &mut Tape, mut r: Rendered) -> Rendered {
    let n = 1 + t.below(400);
    let mut s = String::new();
    let only = t.below(NLS.len() as u32 * 2) as usize;
    for _ in 0..n {
        match t.below(12) {
            9 => s.push_str("  "),
            10 => s.push_str("/*é*/"),
            11 => s.push_str("//日本"),
            _ => (),
        }
        s.push_str(NLS[if only < NLS.len() { only } else { t.below(NLS.len() as u32) as usize }]);
    }
    t.feat("hundreds of lines");
    let d = s.len();
    for x in r.spans.iter_mut().flatten() {
        x.0 += d;
        x.1 += d;
    }
    r.newlines += n as usize;
    s.push_str(&r.src);
    r.src = s;
    r
}
