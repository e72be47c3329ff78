//! Token sequences of any kind (C20) and what tolerance does to them (C14).
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::gen::*;
use crate::tape::Tape;
use crate::tok::*;
use ressa::{Builder, Parser};

const PUNCT: &[&str] = &[
    "{", "}", "(", ")", ".", ";", ",", "[", "]", ":", "?", "~", ">", "<", "=", "!", "+", "-", "*", "%", "&", "|", "^", ">>>=", "...", "===", "!==",
    ">>>", "<<=", ">>=", "**=", "&&", "||", "==", "!=", "+=", "-=", "*=", "/=", "/", "++", "--", "<<", ">>", "&=", "|=", "^=", "%=", "<=", ">=", "=>",
    "**", "#", "@",
];
const COMMON: &[&str] = &["(", ")", "{", "}", "[", "]", ",", ";", "=", "=>", "...", ".", ":", "*", "?", "+", "-", "/"];
const WORD: &[&str] = &[
    "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false",
    "finally", "for", "function", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "package", "private", "protected",
    "public", "return", "static", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield", "async", "of", "get",
    "set", "from", "as", "target", "constructor", "prototype", "__proto__", "eval", "arguments", "a", "b", "é", "undefined",
];
const LIT: &[&str] = &[
    "0", "1", "1.5", ".5", "5.", "0x1F", "0b11", "0o17", "017", "1e9", "''", "\"\"", "'use strict'", "\"use strict\"", "'a\\\nb'", "'\\u{1F600}'", "/a/", "/[/]/g",
    "/=/", "``", "`a`", "`\n`", "`\\``", "`${", "}${", "}`", "`a${", "}b${", "}c`", "\"é\"",
];

pub fn random_tok(t: &mut Tape) -> Tok {
    match t.weighted(&[5, 6, 5, 3]) {
        0 => Tok::new(TK::Punct, t.pick(COMMON)),
        1 => Tok::new(TK::Word, t.pick(WORD)),
        2 => Tok::new(TK::Punct, t.pick(PUNCT)),
        _ => {
            let s: &str = t.pick(LIT);
            let k = match s.as_bytes()[0] {
                b'0'..=b'9' | b'.' => TK::Num,
                b'\'' | b'"' => TK::Str,
                b'/' => TK::Regex,
                _ => TK::TplFull,
            };
            Tok::new(k, s)
        }
    }
}

/// nesting constructs: what opens, what stands in the middle of the innermost one, what closes
const NESTS: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("{", "}"),
    ("({a:", "})"),
    ("a(", ")"),
    ("a[", "]"),
    ("-", ""),
    ("!", ""),
    ("typeof ", ""),
    ("new ", ""),
    ("new a(", ")"),
    ("a=", ""),
    ("a?", ":b"),
    ("a?b:", ""),
    ("a+(", ")"),
    ("a**", ""),
    ("...", ""),
    ("[...", "]"),
    ("f(...", ")"),
    ("({...", "})"),
    ("({[", "]:1})"),
    ("({a=", "}=1)"),
    ("([", "]=1)"),
    ("({a:[", "]}=1)"),
    ("(a,", ")"),
    ("(a=", ")=>1"),
    ("([a=", "])=>1"),
    ("()=>", ""),
    ("a=>", ""),
    ("()=>{", "}"),
    ("async()=>", ""),
    ("async a=>", ""),
    ("async(", ")"),
    ("async(a=", ")=>1"),
    ("function(){", "}"),
    ("(function(){", "})"),
    ("(function*(){yield ", "})"),
    ("(async function(){await ", "})"),
    ("function a(){", "}"),
    ("function a(b=", "){}"),
    ("function*a(){", "}"),
    ("async function a(){", "}"),
    ("class{a(){", "}}"),
    ("(class{a(){", "}})"),
    ("(class extends ", "{})"),
    ("class a{[", "](){}}"),
    ("class a{constructor(){super(", ")}}"),
    ("({get a(){", "}})"),
    ("({set a(b=", "){}})"),
    ("({async*[", "](){}})"),
    ("`${", "}`"),
    ("a`${", "}`"),
    ("`a${`b${", "}c`}d`"),
    ("if(a)", ""),
    ("if(a);else ", ""),
    ("if(", ");"),
    ("while(a)", ""),
    ("while(", ");"),
    ("do ", ";while(a)"),
    ("for(;;)", ""),
    ("for(", ";;);"),
    ("for(var a=", ";;);"),
    ("for(a in ", ");"),
    ("for(let[a=", "]of b);"),
    ("for(a of b)", ""),
    ("switch(a){case ", ":}"),
    ("switch(a){default:", "}"),
    ("try{", "}catch(a){}"),
    ("try{}catch(a){", "}"),
    ("try{}catch({a=", "}){}"),
    ("try{}finally{", "}"),
    ("with(a)", ""),
    ("a:", ""),
    ("return ", ""),
    ("throw ", ""),
    ("var[", "]=a;"),
    ("var{a:", "}=a;"),
    ("let{a=", "}=a;"),
    ("const a=", ";"),
    ("import(", ")"),
    ("yield ", ""),
    ("await ", ""),
    ("a,", ""),
    ("export default ", ""),
    ("export const a=", ";"),
    ("import{a,", "}from'a';"),
];
const MIDDLE: &[&str] = &["a", "", "1", ";", "a=1", "{}", "[]", "()", "a b", "}", ")", "=>", "`", "'use strict'", "let", "async", "import", "a=>b", "...a", "yield", "return"];

/// Wrappers which keep a program in order: what they stand for (a statement
/// or an expression), what they hold, and their texts. `#` is the level, so
/// that names differ from level to level.
const ORDERED: &[(bool, bool, &str, &str)] = &[
    (true, true, "a#:", ""),
    (true, true, "{", "}"),
    (true, true, "{;", ";}"),
    (true, true, "if(a#)", ""),
    (true, true, "if(a);else ", ""),
    (true, true, "if(a){", "}else;"),
    (true, true, "while(a)", ""),
    (true, true, "do{", "}while(a)"),
    (true, true, "for(;;)", ""),
    (true, true, "for(var a# of b)", ""),
    (true, true, "for(let a# in b){", "}"),
    (true, true, "switch(a){case 1:", "}"),
    (true, true, "switch(a){default:", "case 2:}"),
    (true, true, "try{", "}catch(a#){}"),
    (true, true, "try{}catch(a#){", "}"),
    (true, true, "try{}catch{", "}finally{}"),
    (true, true, "try{}finally{", "}"),
    (true, true, "{function a#(){", "}}"),
    (true, true, "{function*a#(){", "}}"),
    (true, true, "{async function a#(){", "}}"),
    (true, true, "{class a#{b(){", "}}}"),
    (true, true, "a#:for(;;){", "continue a#}"),
    (true, true, "a#:{", "break a#}"),
    (true, false, "a=", ";"),
    (true, false, "+", ";"),
    (true, false, "throw ", ";"),
    (true, false, "{let a#=", "}"),
    (true, false, "{const{b#=", "}=c}"),
    (true, false, "var a#=", ";"),
    (true, false, "if(", ");"),
    (true, false, "while(", ");"),
    (true, false, "do;while(", ");"),
    (true, false, "for(;(", ");){}"),
    (true, false, "for(a of ", ");"),
    (true, false, "for(a# in ", ")a();"),
    (true, false, "switch(", "){}"),
    (true, false, "switch(a){case ", ":}"),
    (true, false, "{class a# extends(", "){}}"),
    (true, false, "{class a#{[", "](){}}}"),
    (true, false, "{function a#(b=", "){}}"),
    (false, true, "(function(){", "})"),
    (false, true, "(function*(){", "})"),
    (false, true, "(async function a#(){", "})"),
    (false, true, "(()=>{", "})"),
    (false, true, "(async()=>{", "})"),
    (false, true, "((b#,c#=1)=>{", "})"),
    (false, true, "(class{a(){", "}})"),
    (false, true, "(class{static get a(){", "}})"),
    (false, true, "({a(){", "}})"),
    (false, true, "({set a(b#){", "}})"),
    (false, true, "({*[b](){", "}})"),
    (false, true, "({async a(){", "}})"),
    (false, false, "(", ")"),
    (false, false, "[", "]"),
    (false, false, "[,", ",]"),
    (false, false, "[...", "]"),
    (false, false, "({a:", "})"),
    (false, false, "({[", "]:1})"),
    (false, false, "({...", "})"),
    (false, false, "({[", "](){}})"),
    (false, false, "a(", ")"),
    (false, false, "a(...", ",)"),
    (false, false, "a[", "]"),
    (false, false, "new a(", ")"),
    (false, false, "new(", ")"),
    (false, false, "(a=", ")"),
    (false, false, "([a#=", "]=c)"),
    (false, false, "({a#=", "}=c)"),
    (false, false, "(a?", ":b)"),
    (false, false, "(a?b:", ")"),
    (false, false, "a+", ""),
    (false, false, "a&&", ""),
    (false, false, "typeof ", ""),
    (false, false, "!", ""),
    (false, false, "`a${", "}b`"),
    (false, false, "a`${1}${", "}`"),
    (false, false, "(b#=>", ")"),
    (false, false, "((b#)=>(", "))"),
    (false, false, "(async b#=>", ")"),
    (false, false, "((b#=", ")=>1)"),
    (false, false, "(({b#=", "})=>1)"),
    (false, false, "(async(b#=", ")=>1)"),
    (false, false, "(class extends(", "){})"),
    (false, false, "(class{static[", "](){}})"),
    (false, false, "(function(b#=", "){})"),
];
const ORDERED_STMT: &[&str] = &[";", "", "{}", "a", "a=>a", "(function(){})", "'use strict'", "var a", "if(a);else;", "debugger"];
const ORDERED_EXPR: &[&str] = &["a", "1", "function(){}", "function*a(){}", "class{}", "(a=>a)", "[]", "{}", "``", "this", "/a/", "(async()=>{})", "async", "let", "yield", "await"];

/// A nest of constructs in order, and the depth of it.
fn ordered(t: &mut Tape) -> String {
    let depth = if t.chance(1, 8) { 20 + t.below(100) } else { 1 + t.below(20) };
    // few kinds, so that nests of one construct are common
    let few: Vec<usize> = (0..1 + t.below(5)).map(|_| t.below(ORDERED.len() as u32) as usize).collect();
    let mut stmt = true;
    let mut s = String::new();
    let mut close = vec![];
    for i in 0..depth {
        let of_few: Vec<usize> = few.iter().copied().filter(|k| ORDERED[*k].0 == stmt).collect();
        let k = if of_few.is_empty() || t.chance(1, 12) {
            let fit: Vec<usize> = (0..ORDERED.len()).filter(|k| ORDERED[*k].0 == stmt).collect();
            *t.pick(&fit)
        } else {
            *t.pick(&of_few)
        };
        let (_, to, a, b) = ORDERED[k];
        let n = i.to_string();
        s.push_str(&a.replace('#', &n));
        close.push(b.replace('#', &n));
        stmt = to;
    }
    s.push_str(if stmt { t.pick(ORDERED_STMT) } else { t.pick(ORDERED_EXPR) });
    while let Some(c) = close.pop() {
        s.push_str(&c);
    }
    s
}

/// things that make long flat texts: what is repeated, what stands at the end
const LONG: &[(&str, &str, &str)] = &[
    ("", "a+", "a"),
    ("", "a,", "a"),
    ("", "a;", ""),
    ("", ";", ""),
    ("", "a=", "a"),
    ("", "a&&", "a"),
    ("", "a**", "a"),
    ("", "a?b:", "a"),
    ("a", ".a", ""),
    ("a", "[a]", ""),
    ("a", "(a)", ""),
    ("a", "``", ""),
    ("a", "`${a}`", ""),
    ("`", "${a}", "`"),
    ("`", "a\n", "`"),
    ("[", "a,", "]"),
    ("[", ",", "]"),
    ("({", "a,", "})"),
    ("({", "a:a,", "})"),
    ("({", "a(){},", "})"),
    ("({", "get a(){},", "})"),
    ("({", "__proto__:1,", "})"),
    ("({", "a=1,", "}=1)"),
    ("class a{", "a(){}", "}"),
    ("class a{", "static set a(b){}", "}"),
    ("class a{", ";", "}"),
    ("f(", "a,", ")"),
    ("f(", "...a,", ")"),
    ("function f(", "a,", "){}"),
    ("(", "a,", "a)=>1"),
    ("async(", "a,", "a)=>1"),
    ("var ", "a,", "a"),
    ("var ", "a=1,", "a"),
    ("let ", "[a]=1,", "a"),
    ("const ", "{a}=1,", "a=1"),
    ("var [", "a=1,", "]=1"),
    ("var {", "a:[b],", "}=1"),
    ("", "if(a)b;else ", "c"),
    ("", "a:", ";"),
    ("switch(a){", "case 1:a;", "}"),
    ("", "try{}catch(a){}", ""),
    ("", "function f(){}", ""),
    ("", "async function f(){}", ""),
    ("", "async\n", "a"),
    ("", "let\n", "a"),
    ("", "'use strict';", ""),
    ("", "'a'\n", ""),
    ("", "import'a';", ""),
    ("import{", "a as b,", "}from'a'"),
    ("export{", "a as b,", "}"),
    ("", "export*from'a';", ""),
    ("", "export const a=1;", ""),
    ("", "\n", "a"),
    ("", "\r\n", "a b"),
    ("", "/**/", "a"),
    ("", "//\n", ")"),
    ("", "a\n++\n", "b"),
    ("", "- -", "a"),
    ("", "new ", "a"),
    ("", "{}", ""),
    ("", "a=>", "b"),
    ("", "async a=>", "b"),
    ("", "label:for(;;)", "break label"),
    ("", "do;while(0)", ""),
    ("", "/a/g;", ""),
    ("", "x=/=/+", "1"),
    ("'", "ab", "'"),
    ("", "throw a\n", ""),
    ("function f(){", "return a\n", "}"),
    ("function*f(){", "yield\n", "}"),
    ("async function f(){", "await ", "a}"),
];

fn join(t: &mut Tape, toks: &[Tok]) -> String {
    match t.below(4) {
        0 => toks.iter().map(|k| k.s.as_str()).collect::<Vec<_>>().join(" "),
        1 => {
            // nothing between them unless words would run together
            let mut s = String::new();
            for (i, k) in toks.iter().enumerate() {
                if i > 0 && need_space(&toks[i - 1], k) {
                    s.push(' ');
                }
                s.push_str(&k.s);
            }
            s
        }
        2 => {
            let mut s = String::new();
            for k in toks {
                s.push_str(&k.s);
                s.push_str(if t.below(3) == 2 { "\n" } else { " " });
            }
            s
        }
        _ => Layout::new(t).render(toks).src,
    }
}

/// some edits of a token sequence
pub fn mutate(t: &mut Tape, toks: &mut Vec<Tok>, other: &[Tok]) {
    let n = 1 + t.count(2, 9);
    for _ in 0..n {
        if toks.is_empty() {
            toks.push(random_tok(t));
            continue;
        }
        let i = t.below(toks.len() as u32) as usize;
        match t.below(10) {
            0 | 1 => {
                toks.remove(i);
            }
            2 => {
                let x = toks[i].clone();
                toks.insert(i, x);
            }
            3 => {
                let x = random_tok(t);
                toks.insert(i, x);
            }
            4 => toks[i] = random_tok(t),
            5 => {
                let j = t.below(toks.len() as u32) as usize;
                toks.swap(i, j);
            }
            6 => {
                // copy a run somewhere else
                let len = 1 + t.below(12) as usize;
                let run: Vec<Tok> = toks[i..(i + len).min(toks.len())].to_vec();
                let j = t.below(toks.len() as u32 + 1) as usize;
                let rest = toks.split_off(j);
                toks.extend(run);
                toks.extend(rest);
            }
            7 => {
                let len = 1 + t.below(12) as usize;
                let e = (i + len).min(toks.len());
                toks.drain(i..e);
            }
            8 => {
                if !other.is_empty() {
                    let a = t.below(other.len() as u32) as usize;
                    let len = 1 + t.below(20) as usize;
                    let run: Vec<Tok> = other[a..(a + len).min(other.len())].to_vec();
                    let rest = toks.split_off(i);
                    toks.extend(run);
                    toks.extend(rest);
                }
            }
            _ => toks.truncate(i),
        }
    }
}

fn big() -> Profile {
    let mut p = Profile::base();
    p.fuel = (3, 40);
    p.items = (1, 5);
    p.modules = 5;
    p
}

/// A text of tokens that need not make sense.
pub fn text(t: &mut Tape) -> (String, bool) {
    match t.weighted(&[6, 3, 3, 3, 2, 3]) {
        0 => {
            t.feat("edited program");
            let prog = program(t, &big());
            let mut toks = prog.toks;
            let other = if t.chance(1, 3) { program(t, &big()).toks } else { vec![] };
            mutate(t, &mut toks, &other);
            (join(t, &toks), prog.module)
        }
        1 => {
            t.feat("random tokens");
            let n = t.count(24, 400);
            let toks: Vec<Tok> = (0..n).map(|_| random_tok(t)).collect();
            (join(t, &toks), t.below(2) == 1)
        }
        2 => {
            t.feat("nesting");
            let depth = if t.chance(1, 6) { 40 + t.below(260) } else { 1 + t.below(40) };
            let kinds: Vec<(&str, &str)> = (0..1 + t.below(4)).map(|_| *t.pick(NESTS)).collect();
            let mut s = String::new();
            let mut close = vec![];
            for i in 0..depth {
                let k = if t.chance(1, 16) { *t.pick(NESTS) } else { kinds[i as usize % kinds.len()] };
                s.push_str(k.0);
                close.push(k.1);
            }
            s.push_str(t.pick(MIDDLE));
            match t.below(4) {
                0 | 1 => (),
                2 => {
                    // not all are closed
                    let keep = t.below(depth + 1) as usize;
                    let gone = close.len() - keep;
                    close.drain(..gone);
                }
                _ => {
                    let i = t.below(depth) as usize;
                    close[i] = t.pick(NESTS).1;
                }
            }
            while let Some(c) = close.pop() {
                s.push_str(c);
            }
            (s, t.below(2) == 1)
        }
        3 => {
            t.feat("repetition");
            let (a, b, c) = *t.pick(LONG);
            // repetitions that nest are kept to a few hundred
            let n = if t.chance(1, 8) { 300 + t.below(400) } else { t.below(60) } as usize;
            let mut s = String::from(a);
            for _ in 0..n {
                s.push_str(b);
            }
            s.push_str(c);
            match t.below(6) {
                4 => s = s.chars().take(t.below(s.len() as u32 + 1) as usize).collect(),
                5 => s.push_str(t.pick(MIDDLE)),
                _ => (),
            }
            (s, t.below(2) == 1)
        }
        5 => {
            t.feat("nest in order");
            (ordered(t), t.below(2) == 1)
        }
        _ => {
            t.feat("edited text");
            let prog = program(t, &big());
            let mut s: Vec<char> = Layout::new(t).render(&prog.toks).src.chars().collect();
            for _ in 0..1 + t.count(2, 8) {
                if s.is_empty() {
                    break;
                }
                let i = t.below(s.len() as u32) as usize;
                match t.below(4) {
                    0 => {
                        s.remove(i);
                    }
                    1 => {
                        let c = *t.pick(&[' ', '\n', '\r', '(', ')', '{', '}', '[', ']', '`', '\'', '"', '/', '\\', ';', ',', '=', '*', '.', 'a', '0', '\u{2028}', 'é', '$']);
                        s.insert(i, c);
                    }
                    2 => s.truncate(i),
                    _ => {
                        let j = t.below(s.len() as u32) as usize;
                        s.swap(i, j);
                    }
                }
            }
            (s.into_iter().collect(), prog.module)
        }
    }
}

/// Everything a user can do with a text, none of which may fail other than by an error value.
fn all_of_it(src: &str, module: bool, tolerant: bool) -> Out<(bool, u64)> {
    let r = guard(src.len(), || {
        let mut b = Builder::new();
        b.module(module).tolerant(tolerant).js(src);
        let mut p = b.build()?;
        let r = p.parse();
        if let Err(e) = &r {
            let _ = format!("{} {:?}", e, e);
        }
        Ok(r.is_ok())
    });
    let steps = crate::steps::made();
    let ok = match r {
        Out::Ok(x) => x,
        Out::Err(..) => false,
        Out::Panic(m) => return Out::Panic(m),
    };
    // item by item, and some steps past the end or the first error
    let r = guard(src.len(), || {
        let mut b = Builder::new();
        b.module(module).tolerant(tolerant).js(src);
        let mut p = b.build()?;
        let mut n = 0usize;
        for x in &mut p {
            n += 1;
            if x.is_err() || n > src.len() + 10 {
                break;
            }
        }
        if n > src.len() + 10 {
            panic!("more items than the text has bytes");
        }
        for _ in 0..5 {
            let _ = p.next();
        }
        let _ = p.parse_again();
        Ok(())
    });
    if let Out::Panic(m) = r {
        return Out::Panic(format!("item by item: {}", m));
    }
    Out::Ok((ok, steps))
}

trait Again {
    fn parse_again(&mut self) -> bool;
}
impl<CH: ressa::CommentHandler + Sized> Again for Parser<CH> {
    fn parse_again(&mut self) -> bool {
        self.parse().is_ok()
    }
}

pub fn c20(t: &mut Tape) -> Outcome {
    let (src, _) = text(t);
    if scan(&src).is_none() {
        return Outcome::Discard("the scanner itself fails");
    }
    let mut fail = None;
    let mut accepted = 0;
    for m in 0..4 {
        match all_of_it(&src, m & 1 == 1, m & 2 == 2) {
            Out::Panic(e) => {
                fail = Some(format!("module {}, tolerant {}: {}", m & 1 == 1, m & 2 == 2, e));
                break;
            }
            Out::Ok((ok, steps)) => {
                accepted += ok as u32;
                crate::steps::note(steps, src.len());
            }
            Out::Err(..) => (),
        }
    }
    t.feat(if accepted == 4 {
        "accepted in all modes"
    } else if accepted > 0 {
        "accepted in some modes"
    } else {
        "rejected"
    });
    let nontrivial = src.len() > 4;
    Outcome::Done(Case { input: src, nontrivial, fail, checks: 8 })
}
