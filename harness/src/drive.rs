//! Running the parser under test and looking at what the scanner alone makes of a text.
use crate::tok::{Cmt, Rendered, Tok, CK};
use resast::prelude::*;
use ressa::{Builder, Error};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> {
    Ok(T),
    /// the error as shown to the user, and its position
    Err(String, Option<(usize, usize)>),
    Panic(String),
}

impl<T: std::fmt::Debug> Out<T> {
    pub fn short(&self) -> String {
        match self {
            Out::Ok(x) => format!("accepted: {}", clip(&format!("{:?}", x), 1500)),
            Out::Err(e, _) => format!("rejected: {}", e),
            Out::Panic(e) => format!("panic: {}", e),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut r: String = s.chars().take(n).collect();
        r.push_str("...");
        r
    }
}

pub fn pos_of(e: &Error) -> Option<(usize, usize)> {
    match e {
        Error::UnexpectedToken(p, _)
        | Error::UnableToReinterpret(p, _, _)
        | Error::Redecl(p, _)
        | Error::OperationError(p, _)
        | Error::InvalidGetterParams(p)
        | Error::InvalidSetterParams(p)
        | Error::NonStrictFeatureInStrictContext(p, _) => Some((p.line, p.column)),
        _ => None,
    }
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn guard<T>(len: usize, f: impl FnOnce() -> Result<T, Error>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(|| crate::steps::within(len, f))) {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(e)) => Out::Err(format!("{}", e), pos_of(&e)),
        Err(p) => {
            crate::watch::end();
            Out::Panic(msg(p))
        }
    }
}

pub fn parse_with(src: &str, module: bool, tolerant: bool) -> Out<Program> {
    guard(src.len(), || {
        let mut b = Builder::new();
        b.set_module(module);
        b.set_tolerant(tolerant);
        b.set_js(src);
        let mut p = b.build()?;
        p.parse()
    })
}
pub fn parse(src: &str, module: bool) -> Out<Program> {
    parse_with(src, module, false)
}

/// Every part the iterator yields up to and including the first error.
pub fn iterate(src: &str, module: bool, tolerant: bool) -> Out<(Vec<ProgramPart>, Option<(String, Option<(usize, usize)>)>)> {
    guard(src.len(), || {
        let mut b = Builder::new();
        b.set_module(module);
        b.set_tolerant(tolerant);
        b.set_js(src);
        let p = b.build()?;
        let mut parts = vec![];
        for x in p {
            match x {
                Ok(x) => parts.push(x),
                Err(e) => return Ok((parts, Some((format!("{}", e), pos_of(&e))))),
            }
        }
        Ok((parts, None))
    })
}

/// Does the scanner split the text into exactly the intended tokens and comments?
pub fn scans(r: &Rendered, toks: &[Tok]) -> bool {
    let (spans, cmts) = match scan(&r.src) {
        Some(x) => x,
        None => return false,
    };
    let _ = toks;
    let mut want = r.spans.iter().filter_map(|s| *s);
    let mut got = spans.iter();
    loop {
        match (want.next(), got.next()) {
            (None, None) => break,
            (Some(a), Some(b)) if a == *b => (),
            _ => return false,
        }
    }
    if cmts.len() != r.comments.len() {
        return false;
    }
    cmts.iter().zip(r.comments.iter()).all(|(a, b)| a.0 == b.start && a.1 == b.end && a.2 == b.kind)
}

pub type Spans = (Vec<(usize, usize)>, Vec<(usize, usize, CK)>);

/// The spans of tokens and comments according to the scanner alone.
pub fn scan(src: &str) -> Option<Spans> {
    use ress::refs::{RefScanner, RefToken};
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut spans = vec![];
        let mut cmts = vec![];
        let mut n = 0;
        for item in RefScanner::new(src) {
            n += 1;
            if n > src.len() + 10 {
                return None;
            }
            match item.token {
                RefToken::EoF => break,
                RefToken::Comment(_) => {
                    let k = if src[item.span.start..].starts_with("//") { CK::Single } else { CK::Multi };
                    cmts.push((item.span.start, item.span.end, k));
                }
                _ => spans.push((item.span.start, item.span.end)),
            }
        }
        Some((spans, cmts))
    }));
    match r {
        Ok(x) => x,
        Err(_) => None,
    }
}

pub fn cmt_text(src: &str, c: &Cmt) -> String {
    src[c.start..c.end].to_string()
}

/// Where two trees first differ, for the report.
pub fn diff(a: &str, b: &str) -> String {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let mut i = 0;
    while i < a.len() && i < b.len() && a[i] == b[i] {
        i += 1;
    }
    let from = i.saturating_sub(120);
    let cut = |v: &Vec<char>| -> String { v[from.min(v.len())..(i + 200).min(v.len())].iter().collect() };
    format!("expected ...{}\n     got ...{}", cut(&a), cut(&b))
}
