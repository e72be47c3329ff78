//! The program generator. Every production emits tokens and, in the same step, the tree
//! ECMAScript assigns to them. The expected tree never goes through the parser under test.
use crate::tape::Tape;
use crate::tok::{Tok, TK};
use resast::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// usable as a name
    Ident,
    /// an operator
    Op,
    /// neither
    No,
}

#[derive(Clone, Debug)]
pub struct Cx {
    pub strict: bool,
    pub module: bool,
    pub func: bool,
    pub yld: Mode,
    pub awt: Mode,
    pub new_target: bool,
    pub super_prop: bool,
    pub super_call: bool,
    pub labels: Vec<(String, bool)>,
    pub in_loop: bool,
    pub in_switch: bool,
    pub noin: bool,
    pub top: bool,
}

impl Cx {
    pub fn script() -> Cx {
        Cx {
            strict: false,
            module: false,
            func: false,
            yld: Mode::Ident,
            awt: Mode::Ident,
            new_target: false,
            super_prop: false,
            super_call: false,
            labels: vec![],
            in_loop: false,
            in_switch: false,
            noin: false,
            top: true,
        }
    }
    pub fn module() -> Cx {
        Cx { strict: true, module: true, awt: Mode::No, ..Cx::script() }
    }
}

// expression productions
pub const IDENT: usize = 0;
pub const NUM: usize = 1;
pub const STR: usize = 2;
pub const CONST: usize = 3;
pub const THIS: usize = 4;
pub const REGEX: usize = 5;
pub const TEMPLATE: usize = 6;
pub const ARRAY: usize = 7;
pub const OBJECT: usize = 8;
pub const FUNC: usize = 9;
pub const CLASS: usize = 10;
pub const ARROW: usize = 11;
pub const AARROW: usize = 12;
pub const MEMBER: usize = 13;
pub const INDEX: usize = 14;
pub const CALL: usize = 15;
pub const NEW: usize = 16;
pub const TAGGED: usize = 17;
pub const UNARY: usize = 18;
pub const UPDATE: usize = 19;
pub const BINARY: usize = 20;
pub const LOGICAL: usize = 21;
pub const COND: usize = 22;
pub const ASSIGN: usize = 23;
pub const SEQ: usize = 24;
pub const YIELD: usize = 25;
pub const AWAIT: usize = 26;
pub const SUPER: usize = 27;
pub const NEWTARGET: usize = 28;
pub const IMPORTCALL: usize = 29;
pub const PAREN: usize = 30;
pub const TOWER: usize = 31;
pub const DASSIGN: usize = 32;
pub const NEXPR: usize = 33;

// statement productions
pub const S_EXPR: usize = 0;
pub const S_VAR: usize = 1;
pub const S_LEX: usize = 2;
pub const S_FUNC: usize = 3;
pub const S_AFUNC: usize = 4;
pub const S_CLASS: usize = 5;
pub const S_BLOCK: usize = 6;
pub const S_EMPTY: usize = 7;
pub const S_IF: usize = 8;
pub const S_FOR: usize = 9;
pub const S_FORIN: usize = 10;
pub const S_FOROF: usize = 11;
pub const S_WHILE: usize = 12;
pub const S_DO: usize = 13;
pub const S_SWITCH: usize = 14;
pub const S_TRY: usize = 15;
pub const S_THROW: usize = 16;
pub const S_RETURN: usize = 17;
pub const S_BREAK: usize = 18;
pub const S_CONTINUE: usize = 19;
pub const S_LABEL: usize = 20;
pub const S_WITH: usize = 21;
pub const S_DEBUGGER: usize = 22;
pub const S_IMPORT: usize = 23;
pub const S_EXPORT: usize = 24;
pub const S_FORAWAIT: usize = 25;
pub const NSTMT: usize = 26;

/// What a property wants to see more or less of.
#[derive(Clone)]
pub struct Profile {
    pub e: [u32; NEXPR],
    pub s: [u32; NSTMT],
    /// contextual names instead of plain ones, out of 16
    pub ctxt: u32,
    /// patterns instead of plain names, out of 16
    pub pats: u32,
    /// top level fuel, low and high
    pub fuel: (u32, u32),
    pub items: (u32, u32),
    /// modules out of 16
    pub modules: u32,
    /// directives out of 16 bodies
    pub dirs: u32,
}

impl Profile {
    pub fn base() -> Profile {
        let mut e = [4u32; NEXPR];
        e[IDENT] = 14;
        e[NUM] = 5;
        e[STR] = 4;
        e[CONST] = 3;
        e[THIS] = 2;
        e[REGEX] = 2;
        e[TEMPLATE] = 3;
        e[FUNC] = 3;
        e[CLASS] = 2;
        e[BINARY] = 8;
        e[UNARY] = 5;
        e[ASSIGN] = 5;
        e[MEMBER] = 6;
        e[CALL] = 6;
        e[SEQ] = 2;
        e[PAREN] = 2;
        e[TOWER] = 1;
        e[YIELD] = 8;
        e[AWAIT] = 8;
        e[SUPER] = 6;
        e[NEWTARGET] = 2;
        e[IMPORTCALL] = 1;
        e[DASSIGN] = 3;
        let mut s = [4u32; NSTMT];
        s[S_EXPR] = 16;
        s[S_VAR] = 6;
        s[S_LEX] = 7;
        s[S_FUNC] = 5;
        s[S_AFUNC] = 2;
        s[S_CLASS] = 3;
        s[S_EMPTY] = 1;
        s[S_DEBUGGER] = 1;
        s[S_WITH] = 2;
        s[S_RETURN] = 8;
        s[S_BREAK] = 6;
        s[S_CONTINUE] = 6;
        s[S_IMPORT] = 6;
        s[S_EXPORT] = 10;
        s[S_FORAWAIT] = 6;
        s[S_DO] = 3;
        Profile { e, s, ctxt: 2, pats: 3, fuel: (6, 60), items: (1, 4), modules: 5, dirs: 2 }
    }
    pub fn only_expr(mut self) -> Profile {
        for i in 1..NSTMT {
            self.s[i] /= 4;
        }
        self.s[S_EXPR] = 60;
        self
    }
    pub fn up_e(mut self, xs: &[usize], by: u32) -> Profile {
        for x in xs {
            self.e[*x] *= by;
        }
        self
    }
    pub fn up_s(mut self, xs: &[usize], by: u32) -> Profile {
        for x in xs {
            self.s[*x] *= by;
        }
        self
    }
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub toks: Vec<Tok>,
    pub parts: Vec<ProgramPart>,
    pub module: bool,
    /// index of the first token of every part, plus the end
    pub bounds: Vec<usize>,
    pub declared: Vec<String>,
}

impl Prog {
    pub fn program(&self) -> Program {
        if self.module {
            Program::Mod(self.parts.clone())
        } else {
            Program::Script(self.parts.clone())
        }
    }
}

pub const SEQ_L: u32 = 0;
pub const ASN: u32 = 1;
pub const CND: u32 = 2;
pub const EXP: u32 = 13;
pub const UN: u32 = 14;
pub const POST: u32 = 15;
pub const LHS: u32 = 16;
pub const CAL: u32 = 17;
pub const MEM: u32 = 18;
pub const PRI: u32 = 19;

pub const PLAIN: &[&str] = &["a", "b", "c", "x", "y", "foo", "$", "_", "bar1", "é", "日本", "iff", "newt", "ofx", "int", "Infinity"];
pub const ALWAYS: &[&str] = &["async", "get", "set", "of", "from", "as", "target", "constructor", "prototype", "undefined", "meta"];
pub const SLOPPY: &[&str] = &["static", "implements", "interface", "package", "private", "protected", "public"];
pub const WORDS: &[&str] = &[
    "if", "in", "new", "function", "class", "null", "true", "false", "this", "typeof", "let", "yield", "await",
    "static", "default", "import", "delete", "instanceof", "return", "enum", "super", "var", "of", "get", "set",
    "async", "extends", "with", "eval", "arguments", "package", "finally", "from", "as",
];
const NUMS: &[&str] = &["1", "0", "42", "3.14", ".5", "5.", "1e10", "0xFF", "0b11", "0o17", "1E-5", "2.5e+3", "0XaB", "123456789012345678901234567890", "0.0", "1e0"];
const REGEXES: &[(&str, &str)] = &[
    ("a", ""), ("[/]", "g"), ("\\/", ""), ("a+b*", "gi"), ("(?:x)", "u"), ("[^\\]]", "y"), ("=x", ""), ("\\d+", "m"),
    ("[a-z]|$", ""), ("(a)\\1", "gimuy"), ("é", ""), ("\\[", ""), ("[[]", ""), (".*?", "s"), ("x{1,2}", ""), ("'", ""), ("\"`", "g"),
];
const STRS: &[&str] = &["", "a", "b c", "\\n", "\\\\", "é", "日本", "😀", "use strict", "//", "/*", "*/", "`", "${", "\\u0041", "\\x41", "\\\n", "\\u{1F600}", "\\0", "-->", ";", "}", "\\b"];
const TPLS: &[&str] = &["", "a", " x ", "\n", "$", "{", "}", "\\`", "\\n", "é", "'", "\"", "//", "/*", "日本😀", "$$", "\\${", "\r\n", "}}", "-", "\\\\"];

pub fn ident_e(s: &str) -> Expr {
    Expr::Ident(s.to_string())
}

pub struct G<'t> {
    pub t: &'t mut Tape,
    pub p: Profile,
    pub toks: Vec<Tok>,
    pub fuel: i32,
    pub depth: u32,
    pub cx: Cx,
    pub declared: Vec<String>,
    top_names: Vec<String>,
    exported: Vec<String>,
    fresh: u32,
    default_done: bool,
    pub no_top_dirs: bool,
    /// `await` is never a name
    /// a declaration may stand here
    pub item_pos: bool,
    pub old_labels: Vec<String>,
    pub no_await: bool,
    pub plant: Option<Plant>,
    /// the statement about to be made is followed by an else that belongs further out
    pub else_follows: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Slot {
    /// anywhere a statement list item may stand
    Item,
    /// anywhere a statement may stand
    Stmt,
    /// anywhere an expression may stand
    Expr,
}
pub enum Made {
    Item(ProgramPart),
    Stmt(Stmt),
    Expr(Expr, u32),
}
/// Something to put at one random place of a program.
#[derive(Clone)]
pub struct Plant {
    pub slot: Slot,
    pub cond: fn(&Cx) -> bool,
    pub make: std::rc::Rc<dyn Fn(&mut G<'_>) -> Made>,
    /// one in so many eligible places
    pub den: u32,
    pub placed: bool,
    /// where it is among the tokens
    pub at: (usize, usize),
}

pub type BinOp = (&'static str, BinaryOperator, u32);
pub const BINOPS: &[BinOp] = &[
    ("+", BinaryOperator::Plus, 11),
    ("-", BinaryOperator::Minus, 11),
    ("*", BinaryOperator::Times, 12),
    ("%", BinaryOperator::Mod, 12),
    ("/", BinaryOperator::Over, 12),
    ("**", BinaryOperator::PowerOf, 13),
    ("<", BinaryOperator::LessThan, 9),
    (">", BinaryOperator::GreaterThan, 9),
    ("<=", BinaryOperator::LessThanEqual, 9),
    (">=", BinaryOperator::GreaterThanEqual, 9),
    ("instanceof", BinaryOperator::InstanceOf, 9),
    ("in", BinaryOperator::In, 9),
    ("==", BinaryOperator::Equal, 8),
    ("!=", BinaryOperator::NotEqual, 8),
    ("===", BinaryOperator::StrictEqual, 8),
    ("!==", BinaryOperator::StrictNotEqual, 8),
    ("<<", BinaryOperator::LeftShift, 10),
    (">>", BinaryOperator::RightShift, 10),
    (">>>", BinaryOperator::UnsignedRightShift, 10),
    ("&", BinaryOperator::And, 7),
    ("^", BinaryOperator::XOr, 6),
    ("|", BinaryOperator::Or, 5),
];
pub const ASNOPS: &[(&str, AssignmentOperator)] = &[
    ("=", AssignmentOperator::Equal),
    ("+=", AssignmentOperator::PlusEqual),
    ("-=", AssignmentOperator::MinusEqual),
    ("*=", AssignmentOperator::TimesEqual),
    ("%=", AssignmentOperator::ModEqual),
    ("/=", AssignmentOperator::DivEqual),
    ("**=", AssignmentOperator::PowerOfEqual),
    ("<<=", AssignmentOperator::LeftShiftEqual),
    (">>=", AssignmentOperator::RightShiftEqual),
    (">>>=", AssignmentOperator::UnsignedRightShiftEqual),
    ("&=", AssignmentOperator::AndEqual),
    ("|=", AssignmentOperator::OrEqual),
    ("^=", AssignmentOperator::XOrEqual),
];
pub const UNOPS: &[(&str, UnaryOperator)] = &[
    ("!", UnaryOperator::Not),
    ("-", UnaryOperator::Minus),
    ("+", UnaryOperator::Plus),
    ("~", UnaryOperator::Tilde),
    ("typeof", UnaryOperator::TypeOf),
    ("void", UnaryOperator::Void),
    ("delete", UnaryOperator::Delete),
];

/// words that cannot end a program
const OPEN_WORDS: &[&str] = &[
    "if", "else", "for", "while", "do", "switch", "case", "default", "throw", "try", "finally", "catch", "with", "new", "typeof",
    "void", "delete", "instanceof", "in", "var", "const", "class", "extends", "function", "import", "export", "super",
];

impl<'t> G<'t> {
    pub fn new(t: &'t mut Tape, p: Profile, cx: Cx) -> G<'t> {
        G {
            t,
            p,
            toks: vec![],
            fuel: 0,
            depth: 0,
            cx,
            declared: vec![],
            top_names: vec![],
            exported: vec![],
            fresh: 0,
            default_done: false,
            no_top_dirs: false,
            no_await: false,
            else_follows: false,
            item_pos: false,
            old_labels: vec![],
            plant: None,
        }
    }
    /// take the plant out if this place is the one
    fn plant_here(&mut self, slot: Slot, force: bool) -> Option<Plant> {
        match self.plant {
            Some(ref p) if !p.placed && p.slot == slot && (p.cond)(&self.cx) => (),
            _ => return None,
        }
        let den = self.plant.as_ref().map_or(1, |p| p.den);
        if !force && !self.t.chance(1, den) {
            return None;
        }
        let p = self.plant.as_mut().unwrap();
        p.placed = true;
        let c = &self.cx;
        let f = if c.func && c.strict {
            "planted in a strict function"
        } else if c.func {
            "planted in a function"
        } else if c.strict {
            "planted in strict code"
        } else {
            "planted in sloppy code"
        };
        let d = self.depth;
        let p = p.clone();
        self.t.feat(f);
        self.t.feat(match d {
            0..=1 => "planted at depth 0-1",
            2..=4 => "planted at depth 2-4",
            5..=9 => "planted at depth 5-9",
            _ => "planted at depth 10 or more",
        });
        Some(p)
    }
    fn planted(&mut self, p: Plant) -> Made {
        let a = self.toks.len();
        let f = p.make.clone();
        let m = f(self);
        let b = self.toks.len();
        for k in &mut self.toks[a..b] {
            k.mark = true;
        }
        self.plant.as_mut().unwrap().at = (a, b);
        m
    }

    // ---- tokens -------------------------------------------------------------------------
    pub fn push(&mut self, k: TK, s: &str) -> usize {
        self.toks.push(Tok::new(k, s));
        self.toks.len() - 1
    }
    pub fn pu(&mut self, s: &str) -> usize {
        self.push(TK::Punct, s)
    }
    /// a name
    pub fn nm(&mut self, s: &str) -> usize {
        self.push(TK::Word, s)
    }
    /// a keyword
    pub fn kw(&mut self, s: &str) -> usize {
        let i = self.push(TK::Word, s);
        self.toks[i].kw = true;
        if OPEN_WORDS.contains(&s) {
            self.toks[i].req = true;
        }
        i
    }
    pub fn semi(&mut self) {
        self.push(TK::Semi, ";");
    }
    pub fn del_ok(&mut self, i: usize) {
        // deleting token i joins two operands if an operand follows
        if let Some(n) = self.toks.get(i + 1) {
            if matches!(n.k, TK::Word | TK::Num | TK::Str) && n.s != "in" && n.s != "instanceof" && n.s != "of" {
                self.toks[i].del = true;
            }
        }
    }
    pub fn wrap(&mut self, start: usize) {
        let nonl = self.toks[start].nonl;
        self.toks[start].nonl = false;
        let mut o = Tok::new(TK::Punct, "(");
        o.nonl = nonl;
        self.toks.insert(start, o);
        self.pu(")");
    }
    pub fn last_is_operand_end(&self) -> bool {
        match self.toks.last() {
            None => false,
            Some(t) => match t.k {
                TK::Word => !t.kw,
                TK::Num => true,
                TK::Punct => t.s == "]",
                _ => false,
            },
        }
    }
    pub fn regex_ok(&self) -> bool {
        match self.toks.last() {
            None => false,
            Some(t) => match t.k {
                TK::Punct => {
                    self.toks.len() > 1 && matches!(t.s.as_str(), "(" | "," | "=" | ":" | "[" | "!" | "&" | "|" | "?" | "+=" | "&&" | "||" | "==" | "===" | "=>" | "*" | "%" | "<<")
                }
                TK::Word => t.kw && matches!(t.s.as_str(), "return" | "typeof" | "case" | "delete" | "void" | "throw" | "new"),
                _ => false,
            },
        }
    }

    // ---- names --------------------------------------------------------------------------
    /// bind: 0 reference, 1 binding, 2 lexical binding
    pub fn name(&mut self, bind: u8) -> String {
        if self.t.below(16) >= 16 - self.p.ctxt {
            self.t.feat("contextual name");
            let strict = self.cx.strict;
            let mut pool: Vec<&'static str> = ALWAYS.to_vec();
            if !strict {
                pool.extend_from_slice(SLOPPY);
                if bind != 2 {
                    pool.push("let");
                }
                pool.push("eval");
                pool.push("arguments");
                if self.cx.yld == Mode::Ident {
                    pool.push("yield");
                    pool.push("yield");
                }
            } else if bind == 0 {
                pool.push("eval");
                pool.push("arguments");
            }
            if self.cx.awt == Mode::Ident && !self.cx.module && !self.no_await {
                pool.push("await");
                pool.push("await");
            }
            let s = self.t.pick(&pool).to_string();
            if bind == 0 || self.declare(&s) {
                return s;
            }
        }
        let mut s = self.t.pick(PLAIN).to_string();
        if self.t.chance(1, 200) {
            self.t.feat("long name");
            let c = *self.t.pick(&["a", "é", "日"]);
            for _ in 0..self.t.below(40) {
                s.push_str(c);
            }
        }
        if bind == 0 || self.declare(&s) {
            return s;
        }
        loop {
            self.fresh += 1;
            let s = format!("v{}", self.fresh);
            if self.declare(&s) {
                return s;
            }
        }
    }
    pub fn declare(&mut self, s: &str) -> bool {
        if self.declared.iter().any(|d| d == s) {
            return false;
        }
        self.declared.push(s.to_string());
        true
    }
    pub fn any_word(&mut self) -> String {
        if self.t.chance(1, 3) {
            self.t.pick(WORDS).to_string()
        } else {
            self.t.pick(PLAIN).to_string()
        }
    }
    pub fn ident_ref(&mut self) -> Expr {
        let s = self.name(0);
        self.nm(&s);
        Expr::Ident(s)
    }

    // ---- literals -----------------------------------------------------------------------
    pub fn string_text(&mut self) -> String {
        let q = if self.t.chance(1, 2) { '\'' } else { '"' };
        let mut s = String::new();
        s.push(q);
        self.run_of_one(&mut s);
        for _ in 0..self.t.count(2, 6) {
            if self.t.chance(1, 10) {
                // a quote: escaped, or the other one
                if self.t.chance(1, 2) {
                    s.push('\\');
                    s.push(q);
                } else {
                    s.push(if q == '"' { '\'' } else { '"' });
                }
            } else {
                let x = *self.t.pick(STRS);
                s.push_str(x);
            }
        }
        s.push(q);
        // \0 must not be followed by a digit: none of the pieces starts with one
        s
    }
    /// now and then a long run, so that characters of several bytes stand at any offset
    fn run_of_one(&mut self, s: &mut String) {
        if self.t.chance(1, 16) {
            let n = self.t.below(72);
            let c = *self.t.pick(&["a", "é", "日", "😀"]);
            for _ in 0..n {
                s.push_str(c);
            }
            s.push_str(*self.t.pick(&["é", "a", "日", "😀"]));
        }
    }
    pub fn string(&mut self) -> Literal {
        let s = self.string_text();
        self.push(TK::Str, &s);
        Literal::String(s)
    }
    pub fn number(&mut self) -> Literal {
        let s = if !self.cx.strict && self.t.chance(1, 24) {
            self.t.pick(&["017", "08", "00"]).to_string()
        } else {
            self.t.pick(NUMS).to_string()
        };
        self.push(TK::Num, &s);
        Literal::Number(s)
    }
    pub fn tpl_text(&mut self, last: bool) -> String {
        let mut s = String::new();
        self.run_of_one(&mut s);
        for _ in 0..self.t.count(2, 6) {
            let x = *self.t.pick(TPLS);
            if s.ends_with('$') && x.starts_with('{') {
                s.push(' ');
            }
            s.push_str(x);
        }
        if (!last && s.ends_with('$')) || s.ends_with('\\') {
            // the scanner takes a backslash in front of the delimiter for an escape
            s.push(' ');
        }
        s
    }
    pub fn template(&mut self) -> TemplateLiteral {
        let n = if self.fuel > 0 { self.t.count(2, 5) } else { 0 };
        let mut quasis = vec![];
        let mut expressions = vec![];
        if n == 0 {
            let s = self.tpl_text(true);
            let raw = format!("`{}`", s);
            self.push(TK::TplFull, &raw);
            quasis.push(TemplateElement { tail: true, cooked: s, raw });
            return TemplateLiteral { quasis, expressions };
        }
        for i in 0..=n {
            let s = self.tpl_text(i == n);
            let (raw, k) = if i == 0 {
                (format!("`{}${{", s), TK::TplHead)
            } else if i < n {
                (format!("}}{}${{", s), TK::TplMid)
            } else {
                (format!("}}{}`", s), TK::TplTail)
            };
            self.push(k, &raw);
            quasis.push(TemplateElement { tail: i == n, cooked: s, raw });
            if i < n {
                expressions.push(self.with_in(|g| g.e(SEQ_L)));
            }
        }
        TemplateLiteral { quasis, expressions }
    }

    pub fn with_in<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let p = self.cx.noin;
        self.cx.noin = false;
        let r = f(self);
        self.cx.noin = p;
        r
    }

    // ---- expressions --------------------------------------------------------------------
    /// an expression of at least the given level, in parentheses if need be
    pub fn e(&mut self, min: u32) -> Expr {
        self.el(min).0
    }
    pub fn el(&mut self, min: u32) -> (Expr, u32) {
        let start = self.toks.len();
        self.depth += 1;
        self.fuel -= 1;
        let (ex, lvl) = match self.plant_here(Slot::Expr, false) {
            Some(p) => match self.planted(p) {
                Made::Expr(x, l) => (x, l),
                _ => (Expr::This, PRI),
            },
            None => self.expr_inner(min),
        };
        self.depth -= 1;
        if lvl < min {
            self.wrap(start);
            (ex, PRI)
        } else {
            (ex, lvl)
        }
    }

    pub fn expr_inner(&mut self, min: u32) -> (Expr, u32) {
        let leaf = self.fuel <= 0 || self.depth > 40;
        let mut w = self.p.e;
        if leaf {
            for i in ARRAY..NEXPR {
                w[i] = 0;
            }
            w[TEMPLATE] = 0;
        }
        if self.cx.yld != Mode::Op {
            w[YIELD] = 0;
        }
        if self.cx.awt != Mode::Op {
            w[AWAIT] = 0;
        }
        if !self.cx.super_prop {
            w[SUPER] = 0;
        }
        if !self.cx.new_target {
            w[NEWTARGET] = 0;
        }
        if !self.regex_ok() {
            w[REGEX] = 0;
        }
        // inside operators prefer what fits without parentheses
        if min > CND {
            for i in [ARROW, AARROW, ASSIGN, SEQ, YIELD, COND, DASSIGN].iter() {
                w[*i] = (w[*i] + 2) / 3;
            }
        }
        let k = self.t.weighted(&w);
        match k {
            IDENT => (self.ident_ref(), PRI),
            NUM => (Expr::Literal(self.number()), PRI),
            STR => (Expr::Literal(self.string()), PRI),
            CONST => {
                let i = self.t.below(3);
                let s = ["true", "false", "null"][i as usize];
                self.kw(s);
                self.t.feat("constant");
                (
                    Expr::Literal(match i {
                        0 => Literal::Boolean(true),
                        1 => Literal::Boolean(false),
                        _ => Literal::Null,
                    }),
                    PRI,
                )
            }
            THIS => {
                self.kw("this");
                (Expr::This, PRI)
            }
            REGEX => {
                self.t.feat("regex");
                let (p, f) = *self.t.pick(REGEXES);
                self.push(TK::Regex, &format!("/{}/{}", p, f));
                (Expr::Literal(Literal::RegEx(RegEx { pattern: p.to_string(), flags: f.to_string() })), PRI)
            }
            TEMPLATE => {
                self.t.feat("template");
                (Expr::Literal(Literal::Template(self.template())), PRI)
            }
            ARRAY => (self.array(), PRI),
            OBJECT => (self.object(), PRI),
            FUNC => (self.func_expr(), PRI),
            CLASS => {
                self.t.feat("class expression");
                let c = self.class(1);
                (Expr::Class(c), PRI)
            }
            ARROW => (self.arrow(false), ASN),
            AARROW => (self.arrow(true), ASN),
            MEMBER | INDEX | CALL | TAGGED => self.chain(k, min),
            NEW => self.new_expr(),
            UNARY => {
                self.t.feat("unary");
                let (s, op) = self.pick_unary();
                if s.len() > 1 {
                    self.kw(s);
                } else {
                    self.pu(s);
                }
                let del = op == UnaryOperator::Delete;
                let start = self.toks.len();
                let arg = self.e(UN);
                if del && self.cx.strict {
                    if let Expr::Ident(_) = arg {
                        // delete of a name is an error in strict code
                        self.toks.truncate(start);
                        self.nm("a");
                        self.pu(".");
                        self.nm("b");
                        return (Expr::Unary(UnaryExpr { operator: op, prefix: true, argument: Box::new(member(ident_e("a"), "b")) }), UN);
                    }
                }
                (Expr::Unary(UnaryExpr { operator: op, prefix: true, argument: Box::new(arg) }), UN)
            }
            UPDATE => {
                self.t.feat("update");
                let inc = self.t.chance(1, 2);
                let s = if inc { "++" } else { "--" };
                let prefix = self.t.chance(1, 2);
                if prefix {
                    self.pu(s);
                }
                let arg = self.simple_target(true);
                if !prefix {
                    let i = self.pu(s);
                    self.toks[i].nonl = true;
                }
                let operator = if inc { UpdateOperator::Increment } else { UpdateOperator::Decrement };
                (Expr::Update(UpdateExpr { operator, argument: Box::new(arg), prefix }), POST)
            }
            BINARY => self.binary(),
            LOGICAL => {
                self.t.feat("logical");
                let and = self.t.chance(1, 2);
                let (s, op, l) = if and { ("&&", LogicalOperator::And, 4) } else { ("||", LogicalOperator::Or, 3) };
                let left = self.e(l);
                self.pu(s);
                let right = self.e(l + 1);
                (Expr::Logical(LogicalExpr { operator: op, left: Box::new(left), right: Box::new(right) }), l)
            }
            COND => {
                self.t.feat("conditional");
                let test = self.e(CND + 1);
                self.pu("?");
                let cons = self.with_in(|g| g.e(ASN));
                self.pu(":");
                let alt = self.e(ASN);
                (
                    Expr::Conditional(ConditionalExpr { test: Box::new(test), alternate: Box::new(alt), consequent: Box::new(cons) }),
                    CND,
                )
            }
            ASSIGN => {
                self.t.feat("assignment");
                let left = self.simple_target(true);
                let mut i = self.t.below(ASNOPS.len() as u32 + 6) as usize;
                if i >= ASNOPS.len() {
                    i = 0;
                }
                if ASNOPS[i].0 == "/=" && !(self.last_is_operand_end() && self.toks.len() > 1) {
                    i = 0;
                }
                self.pu(ASNOPS[i].0);
                let right = self.e(ASN);
                (
                    Expr::Assignment(AssignmentExpr { operator: ASNOPS[i].1, left: AssignmentLeft::Expr(Box::new(left)), right: Box::new(right) }),
                    ASN,
                )
            }
            DASSIGN => {
                self.t.feat("destructuring assignment");
                let left = self.cover(false, true);
                self.pu("=");
                let right = self.e(ASN);
                (
                    Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: AssignmentLeft::Expr(Box::new(left)), right: Box::new(right) }),
                    ASN,
                )
            }
            SEQ => {
                self.t.feat("sequence");
                let n = 2 + self.t.count(2, 10);
                let mut xs = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.pu(",");
                    }
                    xs.push(self.e(ASN));
                }
                (Expr::Sequence(xs), SEQ_L)
            }
            YIELD => {
                self.t.feat("yield");
                self.kw("yield");
                let i = self.toks.len();
                match self.t.below(5) {
                    0 => (Expr::Yield(YieldExpr { argument: None, delegate: false }), ASN),
                    1 => {
                        self.t.feat("yield*");
                        let s = self.pu("*");
                        self.toks[s].nonl = true;
                        let a = self.e(ASN);
                        (Expr::Yield(YieldExpr { argument: Some(Box::new(a)), delegate: true }), ASN)
                    }
                    _ => {
                        let a = self.e(ASN);
                        self.toks[i].nonl = true;
                        (Expr::Yield(YieldExpr { argument: Some(Box::new(a)), delegate: false }), ASN)
                    }
                }
            }
            AWAIT => {
                self.t.feat("await");
                self.kw("await");
                let a = self.e(UN);
                (Expr::Await(Box::new(a)), UN)
            }
            SUPER => {
                self.t.feat("super");
                self.kw("super");
                if self.cx.super_call && self.t.chance(1, 2) {
                    let a = self.args();
                    (Expr::Call(CallExpr { callee: Box::new(Expr::Super), arguments: a }), CAL)
                } else if self.t.chance(1, 3) {
                    self.pu("[");
                    let p = self.with_in(|g| g.e(SEQ_L));
                    self.pu("]");
                    (Expr::Member(MemberExpr { object: Box::new(Expr::Super), property: Box::new(p), computed: true }), MEM)
                } else {
                    self.pu(".");
                    let s = self.any_word();
                    self.nm(&s);
                    (member(Expr::Super, &s), MEM)
                }
            }
            NEWTARGET => {
                self.t.feat("new.target");
                self.kw("new");
                self.pu(".");
                self.nm("target");
                (Expr::MetaProperty(MetaProperty { meta: "new".to_string(), property: "target".to_string() }), MEM)
            }
            IMPORTCALL => {
                self.t.feat("import()");
                self.kw("import");
                self.pu("(");
                let a = self.with_in(|g| g.e(ASN));
                self.pu(")");
                (Expr::Call(CallExpr { callee: Box::new(ident_e("import")), arguments: vec![a] }), CAL)
            }
            PAREN => {
                self.t.feat("parens");
                self.pu("(");
                let x = self.with_in(|g| g.e(SEQ_L));
                self.pu(")");
                (x, PRI)
            }
            _ => self.tower(),
        }
    }

    pub fn pick_unary(&mut self) -> (&'static str, UnaryOperator) {
        *self.t.pick(UNOPS)
    }

    pub fn binary(&mut self) -> (Expr, u32) {
        self.t.feat("binary");
        let mut i = self.t.below(BINOPS.len() as u32) as usize;
        if self.cx.noin && BINOPS[i].0 == "in" {
            i = 0;
        }
        let l = BINOPS[i].2;
        if l == EXP {
            let left = self.e(POST);
            self.pu("**");
            let right = self.e(EXP);
            return (bin(BinaryOperator::PowerOf, left, right), EXP);
        }
        let left = self.e(l);
        if BINOPS[i].0 == "/" && !(self.last_is_operand_end() && self.toks.len() > 1) {
            i = 2;
        }
        if BINOPS[i].0.len() > 3 || BINOPS[i].0 == "in" {
            self.kw(BINOPS[i].0);
        } else {
            self.pu(BINOPS[i].0);
        }
        let right = self.e(l + 1);
        (bin(BINOPS[i].1, left, right), l)
    }

    /// deep nesting of one construct
    pub fn tower(&mut self) -> (Expr, u32) {
        self.t.feat("tower");
        let n = 2 + self.t.below(14);
        let start = self.toks.len();
        match self.t.below(9) {
            0 => {
                for _ in 0..n {
                    self.pu("(");
                }
                let x = self.with_in(|g| g.e(SEQ_L));
                for _ in 0..n {
                    self.pu(")");
                }
                (x, PRI)
            }
            1 => {
                for _ in 0..n {
                    self.pu("[");
                }
                let mut x = self.with_in(|g| g.e(ASN));
                for _ in 0..n {
                    self.pu("]");
                    x = Expr::Array(vec![Some(x)]);
                }
                (x, PRI)
            }
            2 => {
                let mut x = self.e(PRI);
                for i in 0..n {
                    self.pu(".");
                    let s = if i % 3 == 0 { "then" } else { "p" };
                    self.nm(s);
                    x = member(x, s);
                    if i % 2 == 0 {
                        self.pu("(");
                        self.pu(")");
                        x = Expr::Call(CallExpr { callee: Box::new(x), arguments: vec![] });
                    }
                }
                (x, CAL)
            }
            3 => {
                let mut ops = vec![];
                for _ in 0..n {
                    let (s, op) = *self.t.pick(&UNOPS[..6]);
                    if s.len() > 1 {
                        self.kw(s);
                    } else {
                        self.pu(s);
                    }
                    ops.push(op);
                }
                let mut x = self.e(UN);
                for op in ops.into_iter().rev() {
                    x = Expr::Unary(UnaryExpr { operator: op, prefix: true, argument: Box::new(x) });
                }
                (x, UN)
            }
            4 => {
                let mut names = vec![];
                for i in 0..n {
                    let s = format!("p{}", i);
                    self.nm(&s);
                    let a = self.pu("=>");
                    self.toks[a].nonl = true;
                    names.push(s);
                }
                let cx = self.cx.clone();
                self.enter_arrow(false);
                let mut x = self.arrow_body_expr();
                self.cx = cx;
                for s in names.into_iter().rev() {
                    x = Expr::ArrowFunction(ArrowFunctionExpr {
                        id: None,
                        params: vec![FunctionArg::Expr(Expr::Ident(s))],
                        body: ArrowFunctionBody::Expr(Box::new(x)),
                        expression: true,
                        generator: false,
                        is_async: false,
                    });
                }
                (x, ASN)
            }
            5 => {
                // right-nested conditionals
                let mut tests = vec![];
                for _ in 0..n {
                    let t = self.ident_ref();
                    self.pu("?");
                    let c = self.ident_ref();
                    self.pu(":");
                    tests.push((t, c));
                }
                let mut x = self.e(ASN);
                for (t, c) in tests.into_iter().rev() {
                    x = Expr::Conditional(ConditionalExpr { test: Box::new(t), alternate: Box::new(x), consequent: Box::new(c) });
                }
                (x, CND)
            }
            6 => {
                // long sum
                let mut x = self.e(11);
                for _ in 0..n {
                    let minus = self.t.chance(1, 2);
                    self.pu(if minus { "-" } else { "+" });
                    let r = self.ident_ref();
                    x = bin(if minus { BinaryOperator::Minus } else { BinaryOperator::Plus }, x, r);
                }
                (x, 11)
            }
            7 => {
                // left-nested conditional in the middle slot
                let mut tests = vec![];
                for _ in 0..n {
                    let t = self.ident_ref();
                    self.pu("?");
                    tests.push(t);
                }
                let mut x = self.with_in(|g| g.e(ASN));
                for t in tests.into_iter().rev() {
                    self.pu(":");
                    let a = self.ident_ref();
                    x = Expr::Conditional(ConditionalExpr { test: Box::new(t), alternate: Box::new(a), consequent: Box::new(x) });
                }
                (x, CND)
            }
            _ => {
                // exponents and assignments associate to the right
                let asn = self.t.chance(1, 2);
                let mut ls = vec![];
                for _ in 0..n {
                    let l = if asn { self.simple_target(false) } else { self.ident_ref() };
                    self.pu(if asn { "=" } else { "**" });
                    ls.push(l);
                }
                let mut x = if asn { self.e(ASN) } else { self.e(EXP) };
                for l in ls.into_iter().rev() {
                    x = if asn {
                        Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: AssignmentLeft::Expr(Box::new(l)), right: Box::new(x) })
                    } else {
                        bin(BinaryOperator::PowerOf, l, x)
                    };
                }
                let _ = start;
                (x, if asn { ASN } else { EXP })
            }
        }
    }

    /// a name or member that can be assigned to
    pub fn simple_target(&mut self, parens: bool) -> Expr {
        let start = self.toks.len();
        let x = if self.fuel > 0 && self.t.chance(1, 3) {
            self.fuel -= 1;
            let (o, _) = self.el(CAL);
            if self.t.chance(1, 2) {
                self.pu(".");
                let s = self.any_word();
                self.nm(&s);
                member(o, &s)
            } else {
                self.pu("[");
                let p = self.with_in(|g| g.e(SEQ_L));
                self.pu("]");
                Expr::Member(MemberExpr { object: Box::new(o), property: Box::new(p), computed: true })
            }
        } else {
            // as a binding name without declaring it
            let mut s = self.name(0);
            if self.cx.strict && (s == "eval" || s == "arguments") {
                s = "a".to_string();
            }
            self.nm(&s);
            Expr::Ident(s)
        };
        if parens && self.t.chance(1, 20) {
            self.wrap(start);
        }
        x
    }

    pub fn chain(&mut self, k: usize, min: u32) -> (Expr, u32) {
        // only reach for calls where they may stand
        let omin = if min >= MEM { MEM } else { CAL };
        let (o, ol) = self.el(omin);
        let ol = ol.min(MEM);
        match k {
            MEMBER => {
                self.t.feat("member");
                self.pu(".");
                let s = self.any_word();
                self.nm(&s);
                (member(o, &s), ol)
            }
            INDEX => {
                self.t.feat("index");
                self.pu("[");
                let p = self.with_in(|g| g.e(SEQ_L));
                self.pu("]");
                (Expr::Member(MemberExpr { object: Box::new(o), property: Box::new(p), computed: true }), ol)
            }
            TAGGED => {
                self.t.feat("tagged template");
                let q = self.template();
                (Expr::TaggedTemplate(TaggedTemplateExpr { tag: Box::new(o), quasi: q }), ol)
            }
            _ => {
                self.t.feat("call");
                let a = self.args();
                (Expr::Call(CallExpr { callee: Box::new(o), arguments: a }), CAL)
            }
        }
    }

    pub fn new_expr(&mut self) -> (Expr, u32) {
        self.t.feat("new");
        self.kw("new");
        if self.t.chance(1, 8) {
            // new new X
            self.kw("new");
            let c = self.e(MEM);
            let inner = NewExpr { callee: Box::new(c), arguments: vec![] };
            return (Expr::New(NewExpr { callee: Box::new(Expr::New(inner)), arguments: vec![] }), LHS);
        }
        let c = self.e(MEM);
        if self.t.chance(1, 4) {
            (Expr::New(NewExpr { callee: Box::new(c), arguments: vec![] }), LHS)
        } else {
            let a = self.args();
            (Expr::New(NewExpr { callee: Box::new(c), arguments: a }), MEM)
        }
    }

    pub fn args(&mut self) -> Vec<Expr> {
        self.pu("(");
        let n = if self.fuel > 0 { self.t.count(3, 20) } else { self.t.below(2) };
        let mut xs = vec![];
        for i in 0..n {
            if i > 0 {
                self.pu(",");
            }
            if self.t.chance(1, 8) {
                self.t.feat("spread argument");
                self.pu("...");
                let x = self.with_in(|g| g.e(ASN));
                xs.push(Expr::Spread(Box::new(x)));
            } else {
                xs.push(self.with_in(|g| g.e(ASN)));
            }
        }
        if n > 0 && self.t.chance(1, 12) {
            self.t.feat("trailing comma");
            self.pu(",");
        }
        self.pu(")");
        xs
    }

    pub fn array(&mut self) -> Expr {
        self.t.feat("array");
        self.pu("[");
        let n = if self.fuel > 0 { self.t.count(4, 24) } else { self.t.below(2) };
        let mut xs = vec![];
        for i in 0..n {
            let last = i + 1 == n;
            if self.t.chance(1, 8) {
                self.t.feat("hole");
                self.pu(",");
                xs.push(None);
                continue;
            }
            if self.t.chance(1, 8) {
                self.t.feat("spread element");
                self.pu("...");
                let x = self.with_in(|g| g.e(ASN));
                xs.push(Some(Expr::Spread(Box::new(x))));
            } else {
                xs.push(Some(self.with_in(|g| g.e(ASN))));
            }
            if !last || self.t.chance(1, 8) {
                self.pu(",");
            }
        }
        self.pu("]");
        Expr::Array(xs)
    }

    /// a property name: (key, computed)
    pub fn prop_key(&mut self, class: u8) -> (PropertyKey, bool) {
        match self.t.weighted(&[8, 3, 2, 3]) {
            0 => {
                let mut s = self.any_word();
                if self.t.below(16) >= 16 - self.p.ctxt {
                    s = self.t.pick(ALWAYS).to_string();
                }
                if class == 1 && s == "constructor" || class == 2 && s == "prototype" {
                    s = "k".to_string();
                }
                self.nm(&s);
                (PropertyKey::Expr(Expr::Ident(s)), false)
            }
            1 => {
                let l = self.string();
                (PropertyKey::Literal(l), false)
            }
            2 => {
                let l = self.number();
                (PropertyKey::Literal(l), false)
            }
            _ => {
                self.t.feat("computed key");
                self.pu("[");
                let x = self.with_in(|g| g.e(ASN));
                self.pu("]");
                let k = match x {
                    Expr::Literal(Literal::String(_)) | Expr::Literal(Literal::Number(_)) | Expr::Literal(Literal::Boolean(_)) => {
                        if let Expr::Literal(l) = x {
                            PropertyKey::Literal(l)
                        } else {
                            unreachable!()
                        }
                    }
                    x => PropertyKey::Expr(x),
                };
                (k, true)
            }
        }
    }

    pub fn object(&mut self) -> Expr {
        self.t.feat("object");
        self.pu("{");
        let n = if self.fuel > 0 { self.t.count(4, 16) } else { self.t.below(2) };
        let mut xs = vec![];
        for i in 0..n {
            xs.push(self.obj_prop());
            if i + 1 < n || self.t.chance(1, 8) {
                self.pu(",");
            }
        }
        self.pu("}");
        Expr::Object(xs)
    }

    pub fn obj_prop(&mut self) -> ObjectProperty {
        let k = self.t.weighted(&[6, 4, 3, 2, 2, 2, 2, 2]);
        match k {
            0 => {
                let (key, computed) = self.prop_key(0);
                self.pu(":");
                let v = self.with_in(|g| g.e(ASN));
                prop(key, PropertyValue::Expr(v), PropertyKind::Init, false, computed, false)
            }
            1 => {
                self.t.feat("shorthand");
                let s = self.name(0);
                self.nm(&s);
                prop(PropertyKey::Expr(Expr::Ident(s)), PropertyValue::None, PropertyKind::Init, false, false, true)
            }
            2 => {
                self.t.feat("object method");
                let (key, computed) = self.prop_key(0);
                let f = self.method_func(false, false, false, None);
                prop(key, PropertyValue::Expr(Expr::Function(f)), PropertyKind::Init, true, computed, false)
            }
            3 => {
                self.t.feat("getter");
                self.nm("get");
                let (key, computed) = self.prop_key(0);
                let f = self.method_func(false, false, false, Some(0));
                prop(key, PropertyValue::Expr(Expr::Function(f)), PropertyKind::Get, false, computed, false)
            }
            4 => {
                self.t.feat("setter");
                self.nm("set");
                let (key, computed) = self.prop_key(0);
                let f = self.method_func(false, false, false, Some(1));
                prop(key, PropertyValue::Expr(Expr::Function(f)), PropertyKind::Set, false, computed, false)
            }
            5 => {
                self.t.feat("generator method");
                self.pu("*");
                let (key, computed) = self.prop_key(0);
                let f = self.method_func(true, false, false, None);
                prop(key, PropertyValue::Expr(Expr::Function(f)), PropertyKind::Init, true, computed, false)
            }
            6 => {
                self.t.feat("async method");
                self.nm("async");
                let i = self.toks.len();
                let (key, computed) = self.prop_key(0);
                self.toks[i].nonl = true;
                let f = self.method_func(false, true, false, None);
                prop(key, PropertyValue::Expr(Expr::Function(f)), PropertyKind::Init, true, computed, false)
            }
            _ => {
                self.t.feat("object spread");
                self.pu("...");
                let x = self.with_in(|g| g.e(ASN));
                ObjectProperty::Spread(Box::new(Expr::Spread(Box::new(x))))
            }
        }
    }

    // ---- functions ----------------------------------------------------------------------
    /// parameters, body and context of a method; nparams fixes the number of plain ones
    pub fn method_func(&mut self, gen: bool, asy: bool, ctor: bool, nparams: Option<u32>) -> Function {
        let cx = self.cx.clone();
        let derived = self.cx.super_call;
        self.enter_func(gen, asy);
        self.cx.super_prop = true;
        self.cx.super_call = ctor && derived;
        let (params, body) = self.params_and_body(nparams, gen, asy);
        self.cx = cx;
        Function { id: None, params, body, generator: gen, is_async: asy }
    }
    pub fn enter_func(&mut self, gen: bool, asy: bool) {
        let c = &mut self.cx;
        c.func = true;
        c.yld = if gen { Mode::Op } else { Mode::Ident };
        c.awt = if asy {
            Mode::Op
        } else if c.module {
            Mode::No
        } else {
            Mode::Ident
        };
        c.new_target = true;
        c.super_prop = false;
        c.super_call = false;
        c.labels.clear();
        c.in_loop = false;
        c.in_switch = false;
        c.noin = false;
        c.top = false;
    }
    pub fn enter_arrow(&mut self, asy: bool) {
        let c = &mut self.cx;
        c.func = true;
        c.yld = Mode::Ident;
        c.awt = if asy {
            Mode::Op
        } else if c.module {
            Mode::No
        } else {
            Mode::Ident
        };
        c.labels.clear();
        c.in_loop = false;
        c.in_switch = false;
        c.top = false;
    }
    /// `( params ) { body }`; the context is already that of the body
    pub fn params_and_body(&mut self, nparams: Option<u32>, gen: bool, asy: bool) -> (Vec<FunctionArg>, FunctionBody) {
        let use_strict = self.t.below(16) >= 16 - self.p.dirs && nparams.is_none();
        let was_strict = self.cx.strict;
        if use_strict {
            self.cx.strict = true;
        }
        let (y, a) = (self.cx.yld, self.cx.awt);
        if gen {
            self.cx.yld = Mode::No;
        }
        if asy {
            self.cx.awt = Mode::No;
        }
        self.pu("(");
        let params = self.params(nparams, use_strict);
        self.pu(")");
        self.cx.yld = y;
        self.cx.awt = a;
        let body = self.body(use_strict);
        self.cx.strict = was_strict;
        (params, body)
    }
    pub fn params(&mut self, n: Option<u32>, simple: bool) -> Vec<FunctionArg> {
        let mut ps = vec![];
        let fixed = n.is_some();
        let n = n.unwrap_or_else(|| self.t.count(3, 10));
        for i in 0..n {
            if i > 0 {
                self.pu(",");
            }
            if simple {
                let s = self.name(1);
                self.nm(&s);
                ps.push(FunctionArg::Pat(Pat::Identifier(s)));
                continue;
            }
            if !fixed && i + 1 == n && self.t.chance(1, 5) {
                self.t.feat("rest parameter");
                self.pu("...");
                let p = self.binding(1);
                ps.push(FunctionArg::Pat(Pat::RestElement(Box::new(p))));
                return ps;
            }
            let p = self.binding_default(1);
            ps.push(FunctionArg::Pat(p));
        }
        if n > 0 && !fixed && self.t.chance(1, 16) {
            self.t.feat("trailing comma");
            self.pu(",");
        }
        ps
    }
    /// `{ directives statements }`
    pub fn body(&mut self, use_strict: bool) -> FunctionBody {
        self.pu("{");
        let mut parts = vec![];
        self.directives(use_strict, &mut parts);
        let n = if self.fuel > 0 { self.t.count(3, 8) } else { 0 };
        for _ in 0..n {
            let p = self.item(parts.iter().all(is_dir));
            parts.push(p);
        }
        self.pu("}");
        parts
    }
    /// directives; the strict one among them if asked for
    pub fn directives(&mut self, use_strict: bool, parts: &mut Vec<ProgramPart>) {
        if !use_strict && self.t.below(16) < 16 - self.p.dirs {
            return;
        }
        self.t.feat("directives");
        let before = if use_strict { self.t.below(2) } else { 1 + self.t.below(2) };
        let after = if use_strict { self.t.below(2) } else { 0 };
        for i in 0..(before + after + use_strict as u32) {
            let s = if use_strict && i == before {
                self.t.feat("use strict");
                let q = if self.t.chance(1, 2) { '\'' } else { '"' };
                format!("{}use strict{}", q, q)
            } else {
                let mut s = self.string_text();
                if &s[1..s.len() - 1] == "use strict" {
                    s = "'use  strict'".to_string();
                }
                s
            };
            self.push(TK::Str, &s);
            self.semi();
            let dir = s[1..s.len() - 1].to_string();
            parts.push(ProgramPart::Dir(Dir { expr: Literal::String(s), dir }));
        }
    }

    pub fn func_expr(&mut self) -> Expr {
        let gen = self.t.chance(1, 4);
        let asy = !gen && self.t.chance(1, 4);
        self.t.feat(if gen { "generator" } else if asy { "async function" } else { "function" });
        if asy {
            self.nm("async");
        }
        let i = self.kw("function");
        self.toks[i].nonl = asy;
        if gen {
            self.pu("*");
        }
        let cx = self.cx.clone();
        self.enter_func(gen, asy);
        let id = if self.t.chance(1, 2) {
            let c = self.cx.clone();
            // usable both inside and, for a use strict body, in strict code
            self.cx.strict = true;
            let s = self.name(1);
            self.cx = c;
            self.nm(&s);
            Some(s)
        } else {
            None
        };
        let (params, body) = self.params_and_body(None, gen, asy);
        self.cx = cx;
        Expr::Function(Function { id, params, body, generator: gen, is_async: asy })
    }

    pub fn func_decl(&mut self, gen: bool, asy: bool, named: bool) -> Function {
        self.t.feat(if gen { "generator" } else if asy { "async function" } else { "function" });
        if asy {
            self.nm("async");
        }
        let i = self.kw("function");
        self.toks[i].nonl = asy;
        if gen {
            self.pu("*");
        }
        let id = if named {
            let c = self.cx.clone();
            self.cx.strict = true;
            let s = self.name(2);
            self.cx = c;
            let i = self.nm(&s);
            let _ = i;
            Some(s)
        } else {
            None
        };
        let cx = self.cx.clone();
        self.enter_func(gen, asy);
        let (params, body) = self.params_and_body(None, gen, asy);
        self.cx = cx;
        Function { id, params, body, generator: gen, is_async: asy }
    }

    pub fn arrow(&mut self, asy: bool) -> Expr {
        self.t.feat(if asy { "async arrow" } else { "arrow" });
        let cx = self.cx.clone();
        let block = self.t.chance(1, 2);
        let use_strict = block && self.t.below(32) >= 32 - self.p.dirs;
        if use_strict {
            self.cx.strict = true;
        }
        // parameters: neither yield nor await expressions
        if self.cx.yld == Mode::Op {
            self.cx.yld = Mode::No;
        }
        if self.cx.awt == Mode::Op || asy {
            self.cx.awt = Mode::No;
        }
        if asy {
            self.nm("async");
        }
        let mut params = vec![];
        let first = self.toks.len();
        if self.t.chance(1, 3) {
            let mut s = self.name(1);
            if s == "async" && asy {
                s = "x".to_string();
            }
            self.nm(&s);
            self.toks[first].nonl = asy;
            params.push(if asy { FunctionArg::Pat(Pat::Identifier(s)) } else { FunctionArg::Expr(Expr::Ident(s)) });
        } else {
            let i = self.pu("(");
            self.toks[i].nonl = asy;
            self.cx.noin = false;
            let n = self.t.count(3, 8);
            let mut rest = false;
            for i in 0..n {
                if i > 0 {
                    self.pu(",");
                }
                if use_strict {
                    let s = self.name(1);
                    self.nm(&s);
                    params.push(FunctionArg::Expr(Expr::Ident(s)));
                    continue;
                }
                if i + 1 == n && self.t.chance(1, 5) {
                    self.t.feat("rest parameter");
                    self.pu("...");
                    rest = true;
                    if asy {
                        let p = self.cover_binding();
                        params.push(FunctionArg::Expr(Expr::Spread(Box::new(p))));
                    } else {
                        let p = self.binding(1);
                        params.push(FunctionArg::Pat(Pat::RestElement(Box::new(p))));
                    }
                    break;
                }
                let p = self.cover_default(true);
                params.push(FunctionArg::Expr(p));
            }
            if n > 0 && !rest && self.t.chance(1, 10) {
                self.t.feat("trailing comma");
                self.pu(",");
            }
            self.pu(")");
            self.cx.noin = cx.noin;
        }
        let a = self.pu("=>");
        self.toks[a].nonl = true;
        let arrow_at = a;
        let strict = self.cx.strict;
        let e = if block {
            self.cx = cx.clone();
            self.cx.strict = strict;
            self.enter_arrow(asy);
            self.cx.noin = false;
            let b = self.body(use_strict);
            ArrowFunctionBody::FunctionBody(b)
        } else {
            self.cx = cx.clone();
            self.enter_arrow(asy);
            ArrowFunctionBody::Expr(Box::new(self.arrow_body_expr()))
        };
        self.cx = cx;
        if self.toks[arrow_at - 1].is(")") {
            self.del_ok(arrow_at);
        }
        Expr::ArrowFunction(ArrowFunctionExpr { id: None, params, body: e, expression: !block, generator: false, is_async: asy })
    }
    pub fn arrow_body_expr(&mut self) -> Expr {
        let start = self.toks.len();
        let x = self.e(ASN);
        if self.toks[start].is("{") {
            self.wrap(start);
        }
        x
    }

    // ---- classes ------------------------------------------------------------------------
    /// named: 0 never, 1 maybe, 2 always
    pub fn class(&mut self, named: u8) -> Class {
        let cx = self.cx.clone();
        self.cx.strict = true;
        self.kw("class");
        let id = if named == 2 || named == 1 && self.t.chance(1, 2) {
            let s = self.name(2);
            self.nm(&s);
            Some(s)
        } else {
            None
        };
        let super_class = if self.t.chance(1, 3) {
            self.t.feat("extends");
            self.kw("extends");
            // a heritage is a left hand side expression
            let start = self.toks.len();
            let noin = self.cx.noin;
            self.cx.noin = false;
            let x = self.e(LHS);
            self.cx.noin = noin;
            let _ = start;
            Some(Box::new(x))
        } else {
            None
        };
        let derived = super_class.is_some();
        let outer_super = self.cx.super_call;
        self.pu("{");
        let n = if self.fuel > 0 { self.t.count(4, 12) } else { self.t.below(2) };
        let mut body = vec![];
        let mut has_ctor = false;
        for _ in 0..n {
            while self.t.chance(1, 8) {
                self.pu(";");
            }
            let m = self.class_el(derived, &mut has_ctor);
            body.push(m);
        }
        while self.t.chance(1, 8) {
            self.pu(";");
        }
        self.pu("}");
        self.cx.super_call = outer_super;
        self.cx = cx;
        Class { id, super_class, body }
    }
    pub fn class_el(&mut self, derived: bool, has_ctor: &mut bool) -> Property {
        let stat = self.t.chance(1, 4);
        if !stat && !*has_ctor && self.t.chance(1, 5) {
            *has_ctor = true;
            self.t.feat("constructor");
            let key = if self.t.chance(1, 4) {
                self.push(TK::Str, "'constructor'");
                PropertyKey::Literal(Literal::String("'constructor'".to_string()))
            } else {
                self.nm("constructor");
                PropertyKey::Expr(ident_e("constructor"))
            };
            let outer = self.cx.super_call;
            self.cx.super_call = derived;
            let f = self.method_func(false, false, true, None);
            self.cx.super_call = outer;
            return Property { key, value: PropertyValue::Expr(Expr::Function(f)), kind: PropertyKind::Ctor, method: true, computed: false, short_hand: false };
        }
        if stat {
            self.t.feat("static");
            self.kw("static");
        }
        let forbid = if stat { 2 } else { 1 };
        let (gen, asy, kind, method, np) = match self.t.weighted(&[6, 2, 2, 2, 2]) {
            0 => (false, false, PropertyKind::Method, true, None),
            1 => {
                self.t.feat("getter");
                self.nm("get");
                (false, false, PropertyKind::Get, false, Some(0))
            }
            2 => {
                self.t.feat("setter");
                self.nm("set");
                (false, false, PropertyKind::Set, false, Some(1))
            }
            3 => {
                self.t.feat("generator method");
                self.pu("*");
                (true, false, PropertyKind::Method, true, None)
            }
            _ => {
                self.t.feat("async method");
                self.nm("async");
                (false, true, PropertyKind::Method, true, None)
            }
        };
        let i = self.toks.len();
        let (key, computed) = self.prop_key(forbid);
        if asy {
            self.toks[i].nonl = true;
        }
        // a string key spelled like a forbidden one cannot come out of the pool
        let f = self.method_func(gen, asy, false, np);
        Property { key, value: PropertyValue::Expr(Expr::Function(f)), kind, method, computed, short_hand: false }
    }

    // ---- patterns -----------------------------------------------------------------------
    pub fn binding_default(&mut self, bind: u8) -> Pat {
        let p = self.binding(bind);
        if self.t.chance(1, 5) {
            self.t.feat("default");
            self.pu("=");
            let r = self.with_in(|g| g.e(ASN));
            return Pat::Assignment(AssignmentPat { left: Box::new(p), right: Box::new(r) });
        }
        p
    }
    /// a binding identifier or pattern
    pub fn binding(&mut self, bind: u8) -> Pat {
        if self.fuel > 0 && self.t.below(16) >= 16 - self.p.pats {
            self.binding_pat(bind)
        } else {
            let s = self.name(bind);
            self.nm(&s);
            Pat::Identifier(s)
        }
    }
    pub fn binding_pat(&mut self, bind: u8) -> Pat {
        self.fuel -= 2;
        if self.t.chance(1, 2) {
            self.t.feat("array pattern");
            self.pu("[");
            let n = self.t.count(3, 10);
            let mut els = vec![];
            for i in 0..n {
                if self.t.chance(1, 6) {
                    self.t.feat("pattern hole");
                    self.pu(",");
                    els.push(None);
                    continue;
                }
                if i + 1 == n && self.t.chance(1, 3) {
                    self.t.feat("rest element");
                    self.pu("...");
                    let p = self.binding(bind);
                    els.push(Some(ArrayPatPart::Pat(Pat::RestElement(Box::new(p)))));
                    break;
                }
                let p = self.binding_default(bind);
                els.push(Some(ArrayPatPart::Pat(p)));
                if i + 1 < n || self.t.chance(1, 8) {
                    self.pu(",");
                }
            }
            self.pu("]");
            Pat::Array(els)
        } else {
            self.t.feat("object pattern");
            self.pu("{");
            let n = self.t.count(3, 8);
            let mut els = vec![];
            for i in 0..n {
                if i + 1 == n && self.t.chance(1, 4) {
                    self.t.feat("rest property");
                    self.pu("...");
                    let s = self.name(bind);
                    self.nm(&s);
                    els.push(ObjectPatPart::Rest(Box::new(Pat::RestElement(Box::new(Pat::Identifier(s))))));
                    break;
                }
                match self.t.below(3) {
                    0 => {
                        let s = self.name(bind);
                        self.nm(&s);
                        els.push(ObjectPatPart::Assignment(property(PropertyKey::Expr(Expr::Ident(s)), PropertyValue::None, false, true)));
                    }
                    1 => {
                        self.t.feat("shorthand default");
                        let s = self.name(bind);
                        self.nm(&s);
                        self.pu("=");
                        let r = self.with_in(|g| g.e(ASN));
                        els.push(ObjectPatPart::Assignment(property(PropertyKey::Expr(Expr::Ident(s)), PropertyValue::Expr(r), false, true)));
                    }
                    _ => {
                        let (key, computed) = self.prop_key(0);
                        self.pu(":");
                        let p = self.binding_default(bind);
                        els.push(ObjectPatPart::Assignment(property(key, PropertyValue::Pat(p), computed, false)));
                    }
                }
                if i + 1 < n || self.t.chance(1, 8) {
                    self.pu(",");
                }
            }
            self.pu("}");
            Pat::Object(els)
        }
    }
    pub fn cover_binding(&mut self) -> Expr {
        if self.fuel > 0 && self.t.below(16) >= 16 - self.p.pats {
            self.cover(true, true)
        } else {
            let s = self.name(1);
            self.nm(&s);
            Expr::Ident(s)
        }
    }
    pub fn cover_target(&mut self, binding: bool) -> Expr {
        if binding {
            self.cover_binding()
        } else if self.fuel > 0 && self.t.below(16) >= 16 - self.p.pats {
            self.cover(false, true)
        } else {
            self.simple_target(true)
        }
    }
    pub fn cover_default(&mut self, binding: bool) -> Expr {
        let l = self.cover_target(binding);
        if self.t.chance(1, 5) {
            self.t.feat("default");
            self.pu("=");
            let r = self.with_in(|g| g.e(ASN));
            return Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: AssignmentLeft::Expr(Box::new(l)), right: Box::new(r) });
        }
        l
    }
    /// an array or object pattern written with the grammar of expressions
    pub fn cover(&mut self, binding: bool, _top: bool) -> Expr {
        self.fuel -= 2;
        let noin = self.cx.noin;
        self.cx.noin = false;
        let r = if self.t.chance(1, 2) {
            self.t.feat("array pattern");
            self.pu("[");
            let n = self.t.count(3, 10);
            let mut els = vec![];
            for i in 0..n {
                if self.t.chance(1, 6) {
                    self.t.feat("pattern hole");
                    self.pu(",");
                    els.push(None);
                    continue;
                }
                if i + 1 == n && self.t.chance(1, 3) {
                    self.t.feat("rest element");
                    self.pu("...");
                    let p = self.cover_target(binding);
                    els.push(Some(Expr::Spread(Box::new(p))));
                    break;
                }
                els.push(Some(self.cover_default(binding)));
                if i + 1 < n || self.t.chance(1, 8) {
                    self.pu(",");
                }
            }
            self.pu("]");
            Expr::Array(els)
        } else {
            self.t.feat("object pattern");
            self.pu("{");
            let n = self.t.count(3, 8);
            let mut els = vec![];
            for i in 0..n {
                if i + 1 == n && self.t.chance(1, 4) {
                    self.t.feat("rest property");
                    self.pu("...");
                    let p = if binding {
                        let s = self.name(1);
                        self.nm(&s);
                        Expr::Ident(s)
                    } else {
                        self.simple_target(true)
                    };
                    els.push(ObjectProperty::Spread(Box::new(Expr::Spread(Box::new(p)))));
                    break;
                }
                match self.t.below(3) {
                    k @ 0..=1 => {
                        let mut s = self.name(if binding { 1 } else { 0 });
                        if self.cx.strict && (s == "eval" || s == "arguments") {
                            s = "a".to_string();
                        }
                        self.nm(&s);
                        let v = if k == 0 {
                            PropertyValue::None
                        } else {
                            self.t.feat("shorthand default");
                            self.pu("=");
                            PropertyValue::Expr(self.e(ASN))
                        };
                        els.push(prop(PropertyKey::Expr(Expr::Ident(s)), v, PropertyKind::Init, false, false, true));
                    }
                    _ => {
                        let (key, computed) = self.prop_key(0);
                        self.pu(":");
                        let p = self.cover_default(binding);
                        els.push(prop(key, PropertyValue::Expr(p), PropertyKind::Init, false, computed, false));
                    }
                }
                if i + 1 < n || self.t.chance(1, 8) {
                    self.pu(",");
                }
            }
            self.pu("}");
            Expr::Object(els)
        };
        self.cx.noin = noin;
        r
    }

    // ---- statements ---------------------------------------------------------------------
    pub fn decl_list(&mut self, kind: VariableKind, in_for: bool) -> Vec<VariableDecl> {
        let n = 1 + self.t.count(2, 8);
        let bind = if kind == VariableKind::Var { 1 } else { 2 };
        let mut ds = vec![];
        for i in 0..n {
            if i > 0 {
                self.pu(",");
            }
            let top = self.cx.top;
            let before = self.declared.len();
            let id = self.binding(bind);
            if top && !in_for {
                let ns = self.declared[before..].to_vec();
                self.top_names.extend(ns);
            }
            let need = kind == VariableKind::Const || !matches!(id, Pat::Identifier(_));
            let init = if need || self.t.chance(1, 2) {
                let at = self.pu("=");
                let x = self.e(ASN);
                self.del_ok(at);
                Some(x)
            } else {
                None
            };
            ds.push(VariableDecl { id, init });
        }
        ds
    }

    /// an expression statement that does not start like another statement
    pub fn expr_stmt(&mut self, prologue: bool) -> Expr {
        let start = self.toks.len();
        let x = self.e(SEQ_L);
        self.guard_stmt_start(start, prologue);
        self.semi();
        x
    }
    pub fn guard_stmt_start(&mut self, start: usize, prologue: bool) {
        let t = &self.toks[start];
        let n = self.toks.get(start + 1);
        let bad = t.is("{")
            || t.k == TK::Word && t.kw && (t.s == "function" || t.s == "class")
            || t.k == TK::Word && t.s == "async" && n.map_or(false, |n| n.is("function"))
            || t.k == TK::Word && t.s == "let" && !t.kw && n.map_or(true, |n| n.k == TK::Word || n.is("[") || n.is("{"))
            || prologue && t.k == TK::Str && self.toks.len() == start + 1;
        if bad {
            self.t.feat("guarded statement");
            self.wrap(start);
        }
    }

    pub fn stmt_kinds(&self, item: bool) -> [u32; NSTMT] {
        let mut w = self.p.s;
        if !item {
            for i in [S_LEX, S_FUNC, S_AFUNC, S_CLASS].iter() {
                w[*i] = 0;
            }
        }
        if !(item && self.cx.top && self.cx.module) {
            w[S_IMPORT] = 0;
            w[S_EXPORT] = 0;
        }
        if !self.cx.func {
            w[S_RETURN] = 0;
        }
        if !(self.cx.in_loop || self.cx.in_switch || !self.cx.labels.is_empty()) {
            w[S_BREAK] = 0;
        }
        if !self.cx.in_loop {
            w[S_CONTINUE] = 0;
        }
        if self.cx.strict {
            w[S_WITH] = 0;
        }
        if self.cx.awt != Mode::Op {
            w[S_FORAWAIT] = 0;
        }
        if self.fuel <= 0 || self.depth > 30 {
            for i in [S_FUNC, S_AFUNC, S_CLASS, S_BLOCK, S_IF, S_FOR, S_FORIN, S_FOROF, S_WHILE, S_DO, S_SWITCH, S_TRY, S_LABEL, S_WITH, S_FORAWAIT].iter() {
                w[*i] = 0;
            }
        }
        w
    }

    /// a statement list item
    pub fn item(&mut self, prologue: bool) -> ProgramPart {
        self.depth += 1;
        self.fuel -= 1;
        let mut here = self.plant_here(Slot::Item, false);
        if here.is_none() {
            here = self.plant_here(Slot::Stmt, false);
        }
        let r = match here {
            Some(p) => self.planted_item(p),
            None => {
                let w = self.stmt_kinds(true);
                let k = self.t.weighted(&w);
                self.item_of(k, prologue)
            }
        };
        self.depth -= 1;
        r
    }
    fn planted_item(&mut self, p: Plant) -> ProgramPart {
        match self.planted(p) {
            Made::Item(i) => i,
            Made::Stmt(s) => ProgramPart::Stmt(s),
            Made::Expr(x, _) => {
                self.semi();
                ProgramPart::Stmt(Stmt::Expr(x))
            }
        }
    }
    pub fn item_of(&mut self, k: usize, prologue: bool) -> ProgramPart {
        match k {
            S_LEX => {
                let kind = if self.t.chance(1, 2) { VariableKind::Const } else { VariableKind::Let };
                self.t.feat("lexical declaration");
                self.kw(if kind == VariableKind::Const { "const" } else { "let" });
                let ds = self.decl_list(kind, false);
                self.semi();
                ProgramPart::Decl(Decl::Variable(kind, ds))
            }
            S_FUNC => {
                let gen = self.t.chance(1, 4);
                let before = self.declared.len();
                let f = self.func_decl(gen, false, true);
                if self.cx.top {
                    let n = self.declared[before].clone();
                    self.top_names.push(n);
                }
                ProgramPart::Decl(Decl::Function(f))
            }
            S_AFUNC => {
                let f = self.func_decl(false, true, true);
                ProgramPart::Stmt(Stmt::Expr(Expr::Function(f)))
            }
            S_CLASS => {
                self.t.feat("class declaration");
                let before = self.declared.len();
                let c = self.class(2);
                if self.cx.top {
                    let n = self.declared[before].clone();
                    self.top_names.push(n);
                }
                ProgramPart::Decl(Decl::Class(c))
            }
            S_IMPORT => ProgramPart::Decl(Decl::Import(Box::new(self.import()))),
            S_EXPORT => ProgramPart::Decl(Decl::Export(Box::new(self.export()))),
            k => {
                self.item_pos = true;
                ProgramPart::Stmt(self.stmt_of(k, prologue))
            }
        }
    }
    /// a statement (not a declaration)
    pub fn stmt(&mut self, no_short_if: bool) -> Stmt {
        self.depth += 1;
        self.fuel -= 1;
        if let Some(p) = self.plant_here(Slot::Stmt, false) {
            let top = self.cx.top;
            self.cx.top = false;
            let r = match self.planted(p) {
                Made::Stmt(s) => s,
                _ => Stmt::Empty,
            };
            self.cx.top = top;
            self.depth -= 1;
            return r;
        }
        let mut w = self.stmt_kinds(false);
        w[S_BLOCK] *= 3;
        let k = self.t.weighted(&w);
        let top = self.cx.top;
        self.cx.top = false;
        self.item_pos = false;
        self.else_follows = no_short_if;
        let r = self.stmt_of(k, false);
        self.cx.top = top;
        self.depth -= 1;
        r
    }
    pub fn block(&mut self) -> BlockStmt {
        let cx = self.cx.clone();
        self.cx.top = false;
        self.pu("{");
        let n = if self.fuel > 0 { self.t.count(3, 8) } else { self.t.below(2) };
        let mut parts = vec![];
        for _ in 0..n {
            parts.push(self.item(false));
        }
        self.pu("}");
        self.cx = cx;
        parts
    }
    pub fn loop_body(&mut self, else_follows: bool) -> Box<Stmt> {
        let cx = self.cx.clone();
        self.cx.in_loop = true;
        // labels just before the loop are usable by continue
        let s = self.stmt(else_follows);
        self.cx = cx;
        Box::new(s)
    }
    pub fn head(&mut self, kw: &str) -> Expr {
        self.kw(kw);
        self.pu("(");
        let x = self.with_in(|g| g.e(SEQ_L));
        self.pu(")");
        x
    }

    pub fn stmt_of(&mut self, k: usize, prologue: bool) -> Stmt {
        // whatever ends with this statement must not end with an if that lacks its else
        let tail = self.else_follows;
        self.else_follows = false;
        match k {
            S_VAR => {
                self.t.feat("var");
                self.kw("var");
                let ds = self.decl_list(VariableKind::Var, false);
                self.semi();
                Stmt::Var(ds)
            }
            S_BLOCK => {
                self.t.feat("block");
                Stmt::Block(self.block())
            }
            S_EMPTY => {
                self.t.feat("empty");
                self.pu(";");
                Stmt::Empty
            }
            S_IF => {
                self.t.feat("if");
                let test = self.head("if");
                let els = self.t.chance(1, 2) || tail;
                let cons = Box::new(self.stmt(els));
                let alternate = if els {
                    self.t.feat("else");
                    self.kw("else");
                    Some(Box::new(self.stmt(tail)))
                } else {
                    None
                };
                Stmt::If(IfStmt { test, consequent: cons, alternate })
            }
            S_FOR => self.for_stmt(tail),
            S_FORIN => self.for_in_of(0, tail),
            S_FOROF => self.for_in_of(1, tail),
            S_FORAWAIT => self.for_in_of(2, tail),
            S_WHILE => {
                self.t.feat("while");
                let test = self.head("while");
                let body = self.loop_body(tail);
                Stmt::While(WhileStmt { test, body })
            }
            S_DO => {
                self.t.feat("do while");
                self.kw("do");
                let body = self.loop_body(false);
                let i = self.toks.len();
                let test = self.head("while");
                self.toks[i].del = true;
                self.push(TK::DoSemi, ";");
                Stmt::DoWhile(DoWhileStmt { test, body })
            }
            S_SWITCH => self.switch(),
            S_TRY => {
                self.t.feat("try");
                self.kw("try");
                let block = self.block();
                let mode = self.t.below(4);
                let handler = if mode != 1 {
                    self.t.feat("catch");
                    self.kw("catch");
                    let param = if self.t.chance(1, 5) {
                        self.t.feat("catch without parameter");
                        None
                    } else {
                        self.pu("(");
                        let p = self.binding(2);
                        self.pu(")");
                        Some(p)
                    };
                    let body = self.block();
                    Some(CatchClause { param, body })
                } else {
                    None
                };
                let finalizer = if mode == 1 || mode == 2 {
                    self.t.feat("finally");
                    self.kw("finally");
                    Some(self.block())
                } else {
                    None
                };
                Stmt::Try(TryStmt { block, handler, finalizer })
            }
            S_THROW => {
                self.t.feat("throw");
                self.kw("throw");
                let i = self.toks.len();
                let x = self.e(SEQ_L);
                self.toks[i].nonl = true;
                self.semi();
                Stmt::Throw(x)
            }
            S_RETURN => {
                self.t.feat("return");
                self.kw("return");
                let r = if self.t.chance(3, 4) {
                    let i = self.toks.len();
                    let x = self.e(SEQ_L);
                    self.toks[i].nonl = true;
                    Some(x)
                } else {
                    None
                };
                self.semi();
                Stmt::Return(r)
            }
            S_BREAK => {
                self.t.feat("break");
                self.kw("break");
                let plain = self.cx.in_loop || self.cx.in_switch;
                let l = if !self.cx.labels.is_empty() && (!plain || self.t.chance(1, 2)) {
                    self.t.feat("break label");
                    let (l, _) = self.t.pick(&self.cx.labels).clone();
                    let i = self.nm(&l);
                    self.toks[i].nonl = true;
                    Some(l)
                } else {
                    None
                };
                self.semi();
                Stmt::Break(l)
            }
            S_CONTINUE => {
                self.t.feat("continue");
                self.kw("continue");
                let loops: Vec<String> = self.cx.labels.iter().filter(|l| l.1).map(|l| l.0.clone()).collect();
                let l = if !loops.is_empty() && self.t.chance(1, 2) {
                    self.t.feat("continue label");
                    let l = self.t.pick(&loops).clone();
                    let i = self.nm(&l);
                    self.toks[i].nonl = true;
                    Some(l)
                } else {
                    None
                };
                self.semi();
                Stmt::Continue(l)
            }
            S_LABEL => {
                self.t.feat("label");
                let item_pos = self.item_pos;
                let mut s = if !self.old_labels.is_empty() && self.t.chance(1, 2) { self.t.pick(&self.old_labels).clone() } else { self.name(0) };
                if self.cx.labels.iter().any(|l| l.0 == s) || self.cx.strict && (s == "yield" || s == "let") {
                    self.fresh += 1;
                    s = format!("L{}", self.fresh);
                }
                if !["yield", "await", "let", "static", "implements", "interface", "package", "private", "protected", "public", "eval", "arguments"].contains(&s.as_str()) {
                    self.old_labels.push(s.clone());
                }
                self.nm(&s);
                self.pu(":");
                let w = {
                    let mut w = self.stmt_kinds(false);
                    if item_pos && !self.cx.strict {
                        w[S_FUNC] = self.p.s[S_FUNC];
                        if self.fuel <= 0 || self.depth > 30 {
                            w[S_FUNC] = 0;
                        }
                    }
                    for i in [S_FOR, S_FORIN, S_FOROF, S_WHILE, S_DO].iter() {
                        w[*i] *= 6;
                    }
                    w
                };
                self.fuel -= 1;
                let k = self.t.weighted(&w);
                let is_loop = matches!(k, S_FOR | S_FORIN | S_FOROF | S_WHILE | S_DO | S_FORAWAIT);
                let cx = self.cx.clone();
                self.cx.top = false;
                self.cx.labels.push((s.clone(), is_loop));
                self.depth += 1;
                self.item_pos = item_pos;
                let body = if k == S_FUNC {
                    self.t.feat("labelled function");
                    self.cx.labels = cx.labels.clone();
                    Stmt::Expr(Expr::Function(self.func_decl(false, false, true)))
                } else {
                    self.else_follows = tail;
                    self.stmt_of(k, false)
                };
                self.depth -= 1;
                self.cx = cx;
                Stmt::Labeled(LabeledStmt { label: s, body: Box::new(body) })
            }
            S_WITH => {
                self.t.feat("with");
                let object = self.head("with");
                let body = Box::new(self.stmt(tail));
                Stmt::With(WithStmt { object, body })
            }
            S_DEBUGGER => {
                self.t.feat("debugger");
                self.kw("debugger");
                self.semi();
                Stmt::Debugger
            }
            _ => {
                let x = self.expr_stmt(prologue);
                Stmt::Expr(x)
            }
        }
    }

    pub fn for_stmt(&mut self, else_follows: bool) -> Stmt {
        self.t.feat("for");
        self.kw("for");
        self.pu("(");
        let init = match self.t.below(4) {
            0 => None,
            1 => {
                let k = self.var_kind();
                self.cx.noin = true;
                let ds = self.decl_list(k, true);
                self.cx.noin = false;
                Some(LoopInit::Variable(k, ds))
            }
            _ => {
                let i = self.toks.len();
                self.cx.noin = true;
                let x = self.e(SEQ_L);
                self.cx.noin = false;
                self.guard_let(i);
                Some(LoopInit::Expr(x))
            }
        };
        let a = self.pu(";");
        let test = if self.t.chance(3, 4) { Some(self.e(SEQ_L)) } else { None };
        let b = self.pu(";");
        for i in &[a, b] {
            self.toks[*i].del = true;
            self.toks[*i].hard = true;
        }
        let update = if self.t.chance(3, 4) { Some(self.e(SEQ_L)) } else { None };
        self.pu(")");
        let body = self.loop_body(else_follows);
        Stmt::For(ForStmt { init, test, update, body })
    }
    /// an expression in a for head that would be read as a declaration
    fn guard_let(&mut self, i: usize) {
        let n = self.toks.get(i + 1);
        if self.toks[i].k == TK::Word && self.toks[i].s == "let" {
            self.t.feat("let in a for head");
            if n.map_or(false, |n| n.k == TK::Word || n.is("[") || n.is("{")) {
                self.wrap(i);
            }
        }
    }
    pub fn var_kind(&mut self) -> VariableKind {
        let k = *self.t.pick(&[VariableKind::Var, VariableKind::Let, VariableKind::Const]);
        self.kw(match k {
            VariableKind::Var => "var",
            VariableKind::Let => "let",
            VariableKind::Const => "const",
        });
        k
    }
    pub fn for_in_of(&mut self, which: u8, else_follows: bool) -> Stmt {
        self.t.feat(["for in", "for of", "for await"][which as usize]);
        self.kw("for");
        if which == 2 {
            self.kw("await");
        }
        self.pu("(");
        let left = match self.t.below(3) {
            0 => {
                let k = self.var_kind();
                let bind = if k == VariableKind::Var { 1 } else { 2 };
                let id = self.binding(bind);
                let mut init = None;
                if which == 0 && k == VariableKind::Var && !self.cx.strict && matches!(id, Pat::Identifier(_)) && self.t.chance(1, 8) {
                    self.t.feat("for in with value");
                    self.pu("=");
                    self.cx.noin = true;
                    init = Some(self.e(ASN));
                    self.cx.noin = false;
                }
                LoopLeft::Variable(k, VariableDecl { id, init })
            }
            1 => {
                let i = self.toks.len();
                self.cx.noin = true;
                let x = self.simple_target(true);
                self.cx.noin = false;
                let alone = self.toks.len() == i + 1;
                let t = &self.toks[i];
                if t.k == TK::Word && t.s == "let" {
                    if which != 0 {
                        self.wrap(i);
                    } else if !alone {
                        self.guard_let(i);
                    }
                } else if t.k == TK::Word && t.s == "async" && alone && which == 1 {
                    self.wrap(i);
                }
                LoopLeft::Expr(x)
            }
            _ => {
                self.cx.noin = true;
                let x = self.cover(false, true);
                self.cx.noin = false;
                LoopLeft::Expr(x)
            }
        };
        let at = if which == 0 { self.kw("in") } else { self.nm("of") };
        self.toks[at].req = true;
        let right = if which == 0 { self.e(SEQ_L) } else { self.e(ASN) };
        self.del_ok(at);
        self.pu(")");
        let body = self.loop_body(else_follows);
        if which == 0 {
            Stmt::ForIn(ForInStmt { left, right, body })
        } else {
            Stmt::ForOf(ForOfStmt { left, right, body, is_await: which == 2 })
        }
    }
    pub fn switch(&mut self) -> Stmt {
        self.t.feat("switch");
        let discriminant = self.head("switch");
        self.pu("{");
        let n = self.t.count(4, 12);
        let mut cases = vec![];
        let def = if self.t.chance(1, 2) { Some(self.t.below(n.max(1))) } else { None };
        let cx = self.cx.clone();
        self.cx.top = false;
        self.cx.in_switch = true;
        for i in 0..n {
            let test = if def == Some(i) {
                self.t.feat("default case");
                self.kw("default");
                None
            } else {
                self.kw("case");
                Some(self.e(SEQ_L))
            };
            self.pu(":");
            let m = if self.fuel > 0 { self.t.count(2, 5) } else { 0 };
            let mut consequent = vec![];
            for _ in 0..m {
                consequent.push(self.item(false));
            }
            cases.push(SwitchCase { test, consequent });
        }
        self.cx = cx;
        self.pu("}");
        Stmt::Switch(SwitchStmt { discriminant, cases })
    }

    // ---- modules ------------------------------------------------------------------------
    pub fn module_source(&mut self) -> Literal {
        self.string()
    }
    pub fn import(&mut self) -> ModImport {
        self.t.feat("import");
        self.kw("import");
        let k = self.t.below(6);
        if k == 0 {
            let source = self.module_source();
            self.semi();
            return ModImport { specifiers: vec![], source };
        }
        let mut specifiers = vec![];
        let default = matches!(k, 1 | 4 | 5);
        if default {
            self.t.feat("default import");
            let s = self.name(2);
            self.nm(&s);
            specifiers.push(ImportSpecifier::Default(s));
            if k != 1 {
                self.pu(",");
            }
        }
        if matches!(k, 2 | 4) {
            self.t.feat("namespace import");
            self.pu("*");
            let i = self.nm("as");
            self.toks[i].del = true;
            let s = self.name(2);
            self.nm(&s);
            specifiers.push(ImportSpecifier::Namespace(s));
        }
        if matches!(k, 3 | 5) {
            self.t.feat("named imports");
            self.pu("{");
            let n = self.t.count(3, 8);
            for i in 0..n {
                if self.t.chance(1, 2) {
                    let s = self.name(2);
                    self.nm(&s);
                    specifiers.push(ImportSpecifier::Normal(s, None));
                } else {
                    let a = self.any_word();
                    self.nm(&a);
                    let at = self.nm("as");
                    self.toks[at].del = true;
                    let b = self.name(2);
                    self.nm(&b);
                    specifiers.push(ImportSpecifier::Normal(a, Some(b)));
                }
                if i + 1 < n || self.t.chance(1, 8) {
                    self.pu(",");
                }
            }
            self.pu("}");
        }
        let at = self.nm("from");
        self.toks[at].del = true;
        let source = self.module_source();
        self.semi();
        ModImport { specifiers, source }
    }
    pub fn export_name(&mut self, s: &str) -> bool {
        if self.exported.iter().any(|x| x == s) {
            return false;
        }
        self.exported.push(s.to_string());
        true
    }
    pub fn export(&mut self) -> ModExport {
        self.t.feat("export");
        self.kw("export");
        let k = self.t.weighted(&[4, 3, 3, 2, 2, 2, 2, 2, 2]);
        let before = self.declared.len();
        let named = |d: Decl| ModExport::Named(NamedExportDecl::Decl(d));
        let r = match k {
            0 => {
                self.t.feat("export var");
                let kind = self.var_kind();
                let ds = self.decl_list(kind, false);
                self.semi();
                named(Decl::Variable(kind, ds))
            }
            1 => {
                let gen = self.t.chance(1, 3);
                let asy = !gen && self.t.chance(1, 3);
                self.t.feat("export function");
                let f = self.func_decl(gen, asy, true);
                let n = self.declared[before].clone();
                self.export_name(&n);
                named(Decl::Function(f))
            }
            2 => {
                self.t.feat("export class");
                let c = self.class(2);
                let n = self.declared[before].clone();
                self.export_name(&n);
                named(Decl::Class(c))
            }
            3 => {
                self.t.feat("export all");
                self.pu("*");
                let at = self.nm("from");
                self.toks[at].del = true;
                let s = self.module_source();
                self.semi();
                ModExport::All(s)
            }
            4 if !self.default_done => {
                self.default_done = true;
                self.t.feat("export default expression");
                self.kw("default");
                let start = self.toks.len();
                let x = self.e(ASN);
                let t = &self.toks[start];
                if t.kw && (t.s == "function" || t.s == "class")
                    || t.s == "async" && self.toks.get(start + 1).map_or(false, |n| n.is("function"))
                {
                    self.wrap(start);
                }
                self.semi();
                ModExport::Default(DefaultExportDecl::Expr(x))
            }
            5 if !self.default_done => {
                self.default_done = true;
                self.t.feat("export default function");
                self.kw("default");
                let gen = self.t.chance(1, 3);
                let asy = !gen && self.t.chance(1, 3);
                let nmd = self.t.chance(1, 2);
                let f = self.func_decl(gen, asy, nmd);
                ModExport::Default(DefaultExportDecl::Decl(Decl::Function(f)))
            }
            6 if !self.default_done => {
                self.default_done = true;
                self.t.feat("export default class");
                self.kw("default");
                let c = self.class(1);
                ModExport::Default(DefaultExportDecl::Decl(Decl::Class(c)))
            }
            7 => {
                // local names that exist
                self.t.feat("export list");
                self.pu("{");
                let n = self.t.count(3, 8);
                let mut specs = vec![];
                for i in 0..n {
                    let local = if self.top_names.is_empty() {
                        break;
                    } else {
                        self.t.pick(&self.top_names).clone()
                    };
                    let renamed = self.t.chance(1, 2);
                    let ex = if renamed { self.any_word() } else { local.clone() };
                    if (ex == "default" && self.default_done) || !self.export_name(&ex) {
                        break;
                    }
                    if ex == "default" {
                        self.default_done = true;
                    }
                    self.nm(&local);
                    if renamed {
                        let at = self.nm("as");
                        self.toks[at].del = true;
                        self.nm(&ex);
                    }
                    specs.push(ExportSpecifier { local, exported: if renamed { Some(ex) } else { None } });
                    if i + 1 < n || self.t.chance(1, 8) {
                        self.pu(",");
                    }
                }
                if self.toks.last().map_or(false, |t| t.is(",")) && specs.is_empty() {
                    self.toks.pop();
                }
                self.pu("}");
                self.semi();
                if let Some(t) = self.toks.last_mut() {
                    t.must = true;
                }
                ModExport::Named(NamedExportDecl::Specifier(specs, None))
            }
            _ => {
                self.t.feat("export list from");
                self.pu("{");
                let n = self.t.count(3, 8);
                let mut specs = vec![];
                for i in 0..n {
                    let local = self.any_word();
                    let renamed = self.t.chance(1, 2);
                    let ex = if renamed { self.any_word() } else { local.clone() };
                    if (ex == "default" && self.default_done) || !self.export_name(&ex) {
                        break;
                    }
                    if ex == "default" {
                        self.default_done = true;
                    }
                    self.nm(&local);
                    if renamed {
                        let at = self.nm("as");
                        self.toks[at].del = true;
                        self.nm(&ex);
                    }
                    specs.push(ExportSpecifier { local, exported: if renamed { Some(ex) } else { None } });
                    if i + 1 < n || self.t.chance(1, 8) {
                        self.pu(",");
                    }
                }
                self.pu("}");
                let at = self.nm("from");
                self.toks[at].del = true;
                let s = self.module_source();
                self.semi();
                ModExport::Named(NamedExportDecl::Specifier(specs, Some(s)))
            }
        };
        if k == 0 {
            let ns = self.declared[before..].to_vec();
            for n in ns {
                self.export_name(&n);
            }
        }
        r
    }

    // ---- programs -----------------------------------------------------------------------
    /// a program without directives whose functions have some
    pub fn program_inner_dirs(mut self, dirs: u32) -> Prog {
        self.p.dirs = dirs;
        self.no_top_dirs = true;
        self.program()
    }
    fn plant_item(&mut self, slot: Slot) -> Option<ProgramPart> {
        let start = self.toks.len();
        let p = self.plant_here(slot, true)?;
        Some(match self.planted(p) {
            Made::Item(i) => i,
            Made::Stmt(s) => ProgramPart::Stmt(s),
            Made::Expr(x, _) => {
                self.guard_stmt_start(start, true);
                self.semi();
                ProgramPart::Stmt(Stmt::Expr(x))
            }
        })
    }
    /// the plant as the last item, in a function if it needs one
    fn plant_last(&mut self, slot: Slot) -> Option<ProgramPart> {
        if self.plant.as_ref().map_or(true, |p| p.placed) {
            return None;
        }
        if let Some(p) = self.plant_item(slot) {
            return Some(p);
        }
        let cond = self.plant.as_ref().unwrap().cond;
        // function, generator, async function, method, strict function
        for kind in 0..5 {
            let cx = self.cx.clone();
            self.enter_func(kind == 1, kind == 2);
            self.cx.super_prop = kind == 3;
            self.cx.strict |= kind == 4;
            if !cond(&self.cx) {
                self.cx = cx;
                continue;
            }
            if kind == 3 {
                self.pu("(");
                self.pu("{");
                self.nm("zw");
            } else {
                if kind == 2 {
                    self.nm("async");
                }
                let i = self.kw("function");
                self.toks[i].nonl = kind == 2;
                if kind == 1 {
                    self.pu("*");
                }
                self.nm("zw");
            }
            self.pu("(");
            self.pu(")");
            self.pu("{");
            let mut body = vec![];
            if kind == 4 {
                self.push(TK::Str, "'use strict'");
                self.semi();
                body.push(ProgramPart::Dir(Dir { expr: Literal::String("'use strict'".to_string()), dir: "use strict".to_string() }));
            }
            if let Some(p) = self.plant_item(slot) {
                body.push(p);
            }
            self.pu("}");
            self.cx = cx;
            let f = Function { id: if kind == 3 { None } else { Some("zw".to_string()) }, params: vec![], body, generator: kind == 1, is_async: kind == 2 };
            if kind == 3 {
                self.pu("}");
                self.pu(")");
                self.semi();
                let p = prop(PropertyKey::Expr(ident_e("zw")), PropertyValue::Expr(Expr::Function(f)), PropertyKind::Init, true, false, false);
                return Some(ProgramPart::Stmt(Stmt::Expr(Expr::Object(vec![p]))));
            }
            if kind == 2 {
                return Some(ProgramPart::Stmt(Stmt::Expr(Expr::Function(f))));
            }
            return Some(ProgramPart::Decl(Decl::Function(f)));
        }
        None
    }
    pub fn program(self) -> Prog {
        self.program_plant().0
    }
    /// the program and where the plant is, if it found a place
    pub fn program_plant(mut self) -> (Prog, Option<(usize, usize)>) {
        let (lo, hi) = self.p.fuel;
        self.fuel = (lo + self.t.below(hi - lo + 1)) as i32;
        if self.t.chance(1, 40) {
            self.fuel *= 6;
        }
        let mut parts = vec![];
        let mut bounds = vec![];
        let use_strict = self.t.below(32) >= 32 - self.p.dirs && !self.no_top_dirs;
        if use_strict {
            self.cx.strict = true;
        }
        if !self.no_top_dirs {
            self.directives(use_strict, &mut parts);
        }
        // one directive is a string and a semicolon
        for i in 0..parts.len() {
            bounds.push(i * 2);
        }
        let n = self.p.items.0 + self.t.count(self.p.items.1 - self.p.items.0, self.p.items.1 * 4);
        let share = (self.fuel / n.max(1) as i32).max(3);
        for _ in 0..n {
            bounds.push(self.toks.len());
            let rest = self.fuel;
            self.fuel = share;
            let p = self.item(parts.iter().all(is_dir));
            self.fuel = rest - (share - self.fuel);
            parts.push(p);
        }
        // no place so far: at the end
        let mut at = None;
        if self.plant.is_some() {
            let slot = self.plant.as_ref().unwrap().slot;
            self.fuel = 10;
            bounds.push(self.toks.len());
            match self.plant_last(slot) {
                Some(part) => parts.push(part),
                None => {
                    bounds.pop();
                }
            }
            let p = self.plant.as_ref().unwrap();
            if p.placed {
                at = Some(p.at);
            }
        }
        bounds.push(self.toks.len());
        (Prog { toks: self.toks, parts, module: self.cx.module, bounds, declared: self.declared }, at)
    }
}

fn is_dir(p: &ProgramPart) -> bool {
    matches!(p, ProgramPart::Dir(_))
}

pub fn bin(operator: BinaryOperator, left: Expr, right: Expr) -> Expr {
    Expr::Binary(BinaryExpr { operator, left: Box::new(left), right: Box::new(right) })
}
pub fn member(object: Expr, name: &str) -> Expr {
    Expr::Member(MemberExpr { object: Box::new(object), property: Box::new(ident_e(name)), computed: false })
}
fn property(key: PropertyKey, value: PropertyValue, computed: bool, short_hand: bool) -> Property {
    Property { key, value, kind: PropertyKind::Init, method: false, computed, short_hand }
}
fn prop(key: PropertyKey, value: PropertyValue, kind: PropertyKind, method: bool, computed: bool, short_hand: bool) -> ObjectProperty {
    ObjectProperty::Property(Property { key, value, kind, method, computed, short_hand })
}

/// A random program for a profile.
pub fn program(t: &mut Tape, p: &Profile) -> Prog {
    let module = t.below(16) >= 16 - p.modules;
    let cx = if module { Cx::module() } else { Cx::script() };
    G::new(t, p.clone(), cx).program()
}
