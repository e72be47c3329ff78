//! Tokens emitted by the generator and the layout that turns them into text.
use crate::tape::Tape;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    /// identifier or keyword
    Word,
    Num,
    Str,
    Regex,
    Punct,
    /// `...` complete, head, middle or tail of a template
    TplFull,
    TplHead,
    TplMid,
    TplTail,
    /// statement terminator that automatic semicolon insertion may supply
    Semi,
    /// the optional semicolon after do-while
    DoSemi,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub k: TK,
    /// no line terminator may stand before this token
    pub nonl: bool,
    /// for Semi: the semicolon must be written out
    pub must: bool,
    /// for Semi: must be left out (used by the ASI check)
    pub force_omit: bool,
    /// no program ends with this token
    pub req: bool,
    /// deleting this token always leaves an invalid program
    pub del: bool,
    /// a line terminator stands before it
    pub must_nl: bool,
    /// no semicolon is ever inserted in its place
    pub hard: bool,
    /// used as a keyword
    pub kw: bool,
    /// part of the plant
    pub mark: bool,
}

impl Tok {
    pub fn new(k: TK, s: &str) -> Self {
        Tok { s: s.to_string(), k, nonl: false, must: false, force_omit: false, req: false, del: false, must_nl: false, hard: false, kw: false, mark: false }
    }
    pub fn is(&self, s: &str) -> bool {
        self.s == s && (self.k == TK::Punct || self.k == TK::Word)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CK {
    Single,
    Multi,
}

#[derive(Clone, Debug)]
pub struct Cmt {
    pub start: usize,
    pub end: usize,
    pub kind: CK,
}

#[derive(Clone, Debug)]
pub struct Rendered {
    pub src: String,
    /// span of every written token, None for an omitted semicolon
    pub spans: Vec<Option<(usize, usize)>>,
    pub comments: Vec<Cmt>,
    /// semicolons left out before a newline / before } or EOF
    pub asi_nl: usize,
    pub asi_close: usize,
    pub newlines: usize,
}

/// Every JavaScript punctuator that the scanner could glue out of two
/// neighbours, plus comment openers.
const PUNCTS: &[&str] = &[
    "{", "}", "(", ")", ".", ";", ",", "[", "]", ":", "?", "~", ">", "<", "=", "!", "+", "-", "/",
    "*", "%", "&", "|", "^", ">>>=", "...", "===", "!==", ">>>", "<<=", ">>=", "**=", "&&", "||",
    "==", "!=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>", "&=", "|=", "^=", "%=", "<=", ">=",
    "=>", "**", "//", "/*", "<!--", "-->", "?.", "??", "..",
];

fn wordy(k: TK) -> bool {
    k == TK::Word || k == TK::Num
}

pub fn need_space(p: &Tok, n: &Tok) -> bool {
    if wordy(p.k) && wordy(n.k) {
        return true;
    }
    if p.k == TK::Num && n.s.starts_with('.') {
        return true;
    }
    // `in`, `instanceof`, `of` ... directly before a string/regex/template are fine
    // for the language, but keep a regex away from anything that looks like a comment
    if p.k == TK::Regex && (wordy(n.k) || n.s.starts_with('\\')) {
        return true;
    }
    if n.k == TK::Regex {
        return p.s.ends_with('/') || p.s.ends_with('<');
    }
    if n.k == TK::Num && n.s.starts_with('.') {
        return p.k == TK::Punct;
    }
    let pp = matches!(p.k, TK::Punct | TK::Semi | TK::DoSemi);
    let np = matches!(n.k, TK::Punct | TK::Semi | TK::DoSemi);
    if pp && np {
        // would any punctuator start inside p and run into n?
        let glued = format!("{}{}", p.s, n.s);
        for x in PUNCTS {
            for start in 0..p.s.len() {
                if glued[start..].starts_with(x) && start + x.len() > p.s.len() {
                    return true;
                }
                // a longer punctuator whose beginning is what we have
                if start > 0 && x.len() > glued.len() - start && x.starts_with(&glued[start..]) {
                    return true;
                }
                if start == 0 && x.len() > glued.len() && x.starts_with(&glued) {
                    return true;
                }
            }
        }
    }
    if p.s.ends_with('/') && (n.s.starts_with('/') || n.s.starts_with('*')) {
        return true;
    }
    false
}

/// Can the token start a new statement without continuing the one before it?
pub fn asi_safe_next(p: &Tok, n: &Tok) -> bool {
    if p.s == "let" && p.k == TK::Word {
        return false;
    }
    match n.k {
        TK::Word => n.s != "in" && n.s != "instanceof",
        TK::Num | TK::Str => !(n.k == TK::Num && n.s.starts_with('.') && false),
        TK::Punct => match n.s.as_str() {
            "{" | "}" | "!" | "~" | "++" | "--" | ";" => true,
            _ => false,
        },
        _ => false,
    }
}

pub const NLS: &[&str] = &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"];
const WS: &[&str] = &[" ", "\t", "  ", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{3000}", "\u{2003}", " \t "];
const CWORDS: &[&str] = &[
    "", "c", " note ", "x = 1", "'", "\"", "`", "${", "}", "{", "(", "*", "* /", "//", "/ *", "é", "日本", "😀",
    "use strict", "return", "@license", "/", "\\", "!", "TODO: fix", "<!--", "-->", "\t",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Plain,
    Compact,
    Lines,
    Wild,
    Comments,
}

pub struct Layout<'a> {
    pub t: &'a mut Tape,
    pub style: Style,
    /// comments allowed at all
    pub comments: bool,
    /// line terminators to choose from
    pub nls: usize,
    /// omit semicolons with this probability (out of 8)
    pub omit: u32,
    out: Rendered,
}

fn single_body(t: &mut Tape) -> String {
    let n = t.below(4);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*t.pick(CWORDS));
    }
    s
}

impl<'a> Layout<'a> {
    pub fn new(t: &'a mut Tape) -> Self {
        let style = match t.weighted(&[5, 3, 3, 4, 4]) {
            0 => Style::Plain,
            1 => Style::Compact,
            2 => Style::Lines,
            3 => Style::Wild,
            _ => Style::Comments,
        };
        let nls = match t.below(4) {
            0 => 1,
            1 => 2,
            _ => NLS.len(),
        };
        let omit = *t.pick(&[0u32, 0, 2, 4, 8]);
        Layout::with(t, style, true, nls, omit)
    }
    pub fn with(t: &'a mut Tape, style: Style, comments: bool, nls: usize, omit: u32) -> Self {
        Layout {
            t,
            style,
            comments,
            nls,
            omit,
            out: Rendered { src: String::new(), spans: vec![], comments: vec![], asi_nl: 0, asi_close: 0, newlines: 0 },
        }
    }
    fn nl(&mut self) {
        let i = self.t.below(self.nls as u32) as usize;
        // never glue a CR and a LF out of two separate line ends unknowingly: harmless, but
        // keep the count of newlines honest
        self.out.src.push_str(NLS[i]);
        self.out.newlines += 1;
    }
    fn ws(&mut self) {
        let w: &&str = self.t.pick(WS);
        self.out.src.push_str(*w);
    }
    fn comment(&mut self, nl_ok: bool, force_nl: bool) -> bool {
        // returns true when the comment brought a line terminator
        let single = nl_ok && self.t.chance(2, 5);
        if self.out.src.ends_with('/') && !self.out.src.ends_with("*/") {
            self.out.src.push(' ');
        }
        let start = self.out.src.len();
        if single {
            let b = single_body(self.t);
            self.out.src.push_str("//");
            self.out.src.push_str(&b);
            let end = self.out.src.len();
            self.out.comments.push(Cmt { start, end, kind: CK::Single });
            self.nl();
            true
        } else {
            let mut b = single_body(self.t);
            let mut has_nl = false;
            if nl_ok && (force_nl || self.t.chance(1, 4)) {
                let k = self.t.below(self.nls as u32) as usize;
                b.push_str(NLS[k]);
                b.push_str(&single_body(self.t));
                self.out.newlines += 1;
                has_nl = true;
            }
            let mut b = b.replace("*/", "* ");
            if b.ends_with('*') && b.len() > 64 {
                b.push(' ');
            }
            self.out.src.push_str("/*");
            self.out.src.push_str(&b);
            self.out.src.push_str("*/");
            let end = self.out.src.len();
            self.out.comments.push(Cmt { start, end, kind: CK::Multi });
            has_nl
        }
    }
    /// write a gap; returns nothing, all bookkeeping goes to `out`
    fn gap(&mut self, need_sep: bool, need_nl: bool, nl_ok: bool) {
        let before = self.out.src.len();
        let mut has_nl = false;
        match self.style {
            Style::Plain => {
                if need_nl {
                    self.nl();
                    has_nl = true;
                } else {
                    self.out.src.push(' ');
                }
            }
            Style::Compact => {
                if need_nl {
                    self.nl();
                    has_nl = true;
                } else if need_sep {
                    self.out.src.push(' ');
                }
            }
            Style::Lines => {
                let n = self.t.below(3);
                for _ in 0..n {
                    if nl_ok {
                        self.nl();
                        has_nl = true;
                    } else {
                        self.out.src.push(' ');
                    }
                }
            }
            Style::Wild => {
                let n = self.t.below(4);
                for _ in 0..n {
                    if nl_ok && self.t.chance(1, 3) {
                        self.nl();
                        has_nl = true;
                    } else if self.comments && self.t.chance(1, 12) {
                        has_nl |= self.comment(nl_ok, false);
                    } else {
                        self.ws();
                    }
                }
            }
            Style::Comments => {
                let n = self.t.below(3);
                for _ in 0..n {
                    match self.t.below(4) {
                        0 => self.ws(),
                        1 if nl_ok => {
                            self.nl();
                            has_nl = true;
                        }
                        _ if self.comments => has_nl |= self.comment(nl_ok, false),
                        _ => self.ws(),
                    }
                }
            }
        }
        if need_nl && !has_nl {
            match self.t.below(4) {
                0 | 1 => self.nl(),
                2 if self.comments => {
                    self.comment(true, true);
                }
                _ => {
                    self.nl();
                    if self.comments && self.t.chance(1, 2) {
                        self.comment(true, false);
                    }
                }
            }
        } else if need_sep && self.out.src.len() == before {
            self.out.src.push(' ');
        }
    }

    pub fn render(mut self, toks: &[Tok]) -> Rendered {
        self.out.src.reserve(toks.len() * 4);
        // leading gap
        if self.style != Style::Plain && self.style != Style::Compact {
            self.gap(false, false, true);
        }
        let mut prev: Option<usize> = None;
        let mut pending_nl = false;
        let mut pending_space = false;
        for i in 0..toks.len() {
            let tk = &toks[i];
            if tk.k == TK::Semi || tk.k == TK::DoSemi {
                let next = toks.get(i + 1);
                let want = tk.force_omit || (!tk.must && self.omit > 0 && self.t.below(8) < self.omit);
                let mut omit = false;
                if want {
                    match next {
                        None => {
                            omit = true;
                            self.out.asi_close += 1;
                        }
                        Some(n) if n.is("}") => {
                            omit = true;
                            self.out.asi_close += 1;
                        }
                        Some(n) => {
                            let p = prev.map(|p| &toks[p]);
                            if tk.k == TK::DoSemi {
                                // optional even on the same line; but a following `;`
                                // would be taken as the optional one
                                if !n.is(";") && n.k != TK::Regex && n.k != TK::Semi {
                                    omit = true;
                                    pending_space = true;
                                }
                            } else if p.map_or(false, |p| asi_safe_next(p, n)) && !n.nonl && !n.is(";") {
                                omit = true;
                                pending_nl = true;
                                self.out.asi_nl += 1;
                            }
                        }
                    }
                }
                if omit {
                    self.out.spans.push(None);
                    continue;
                }
            }
            if let Some(p) = prev {
                let sep = need_space(&toks[p], tk) || pending_space;
                let nl_ok = !tk.nonl;
                let pending_nl = pending_nl || tk.must_nl;
                self.gap(sep, pending_nl, nl_ok || pending_nl);
            }
            pending_nl = false;
            pending_space = false;
            let a = self.out.src.len();
            self.out.src.push_str(&tk.s);
            let b = self.out.src.len();
            self.out.spans.push(Some((a, b)));
            prev = Some(i);
        }
        // trailing gap
        if self.style != Style::Plain && self.style != Style::Compact {
            self.gap(false, false, true);
            if self.comments && self.style == Style::Comments && self.t.chance(1, 3) {
                // a single-line comment ended by the end of input
                if self.out.src.ends_with('/') && !self.out.src.ends_with("*/") {
                    self.out.src.push(' ');
                }
                let start = self.out.src.len();
                let b = single_body(self.t);
                self.out.src.push_str("//");
                self.out.src.push_str(&b);
                let end = self.out.src.len();
                self.out.comments.push(Cmt { start, end, kind: CK::Single });
            }
        }
        self.out
    }
}

/// The canonical one-line layout (all semicolons written).
pub fn plain(toks: &[Tok]) -> Rendered {
    let mut t = Tape::replay(vec![]);
    Layout::with(&mut t, Style::Plain, false, 1, 0).render(toks)
}
