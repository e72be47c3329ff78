//! Small templates with holes, planted at random places of random programs.
use crate::gen::*;
use crate::tok::TK;
use resast::prelude::*;
use std::rc::Rc;

pub const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export",
    "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super",
    "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with",
];

pub enum Hole {
    E(Expr),
    S(Stmt),
    I(ProgramPart),
    K(PropertyKey, bool),
    M,
}

impl Hole {
    pub fn e(&self) -> Expr {
        match self {
            Hole::E(x) => x.clone(),
            _ => Expr::This,
        }
    }
    pub fn i(&self) -> ProgramPart {
        match self {
            Hole::I(x) => x.clone(),
            _ => ProgramPart::Stmt(Stmt::Empty),
        }
    }
    pub fn s(&self) -> Stmt {
        match self {
            Hole::S(x) => x.clone(),
            _ => Stmt::Empty,
        }
    }
    pub fn k(&self) -> (PropertyKey, bool) {
        match self {
            Hole::K(k, c) => (k.clone(), *c),
            _ => (PropertyKey::Expr(Expr::This), false),
        }
    }
}

/// inside the brackets of the template `in` is an operator whatever surrounds it
fn hole(g: &mut G<'_>, depth: i32, l: u32) -> Expr {
    if depth > 0 {
        g.with_in(|g| g.e(l))
    } else {
        g.e(l)
    }
}

/// Emit a template. `$x` are holes, `_` in front of a token forbids a line terminator there,
/// `~` stands for a space inside a string.
pub fn lit(g: &mut G<'_>, tpl: &str) -> Vec<Hole> {
    let mut holes = vec![];
    let mut stack: Vec<Cx> = vec![];
    let mut depth = 0;
    for w in tpl.split_whitespace() {
        if w.starts_with('$') {
            match &w[1..] {
                "e" => holes.push(Hole::E(hole(g, depth, ASN))),
                "E" => holes.push(Hole::E(hole(g, depth, SEQ_L))),
                "u" => holes.push(Hole::E(hole(g, depth, UN))),
                "x" => holes.push(Hole::E(hole(g, depth, POST))),
                "h" => holes.push(Hole::E(hole(g, depth, CAL))),
                "s" => holes.push(Hole::S(g.stmt(false))),
                "i" => holes.push(Hole::I(g.item(false))),
                "m" => {
                    let mut has = true;
                    g.class_el(false, &mut has);
                    holes.push(Hole::M);
                }
                "o" => {
                    g.obj_prop();
                    holes.push(Hole::M);
                }
                "k" => {
                    let (k, c) = g.prop_key(1);
                    holes.push(Hole::K(k, c));
                }
                "K" => {
                    let (k, c) = g.prop_key(2);
                    holes.push(Hole::K(k, c));
                }
                "F" => {
                    stack.push(g.cx.clone());
                    g.enter_func(false, false);
                }
                "G" => {
                    stack.push(g.cx.clone());
                    g.enter_func(true, false);
                }
                "A" => {
                    stack.push(g.cx.clone());
                    g.enter_func(false, true);
                }
                "M" => {
                    stack.push(g.cx.clone());
                    g.enter_func(false, false);
                    g.cx.super_prop = true;
                }
                "R" => {
                    stack.push(g.cx.clone());
                    g.enter_arrow(false);
                }
                "T" => {
                    stack.push(g.cx.clone());
                    g.cx.strict = true;
                }
                // a place where nothing is at the top level any more
                "B" => {
                    stack.push(g.cx.clone());
                    g.cx.top = false;
                }
                "<" => {
                    if let Some(c) = stack.pop() {
                        g.cx = c;
                    }
                }
                x => panic!("bad hole {}", x),
            }
            continue;
        }
        match w {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" => depth -= 1,
            _ => (),
        }
        let (nonl, w) = if w.len() > 1 && w.starts_with('_') { (true, &w[1..]) } else { (false, w) };
        let c = w.chars().next().unwrap();
        let i = if c == '\'' || c == '"' {
            g.push(TK::Str, &w.replace('~', " "))
        } else if c == '`' {
            g.push(TK::TplFull, w)
        } else if c.is_ascii_digit() {
            g.push(TK::Num, w)
        } else if c.is_alphabetic() || c == '$' {
            if RESERVED.contains(&w) {
                g.kw(w)
            } else {
                g.nm(w)
            }
        } else {
            g.pu(w)
        };
        if nonl || w == "=>" {
            g.toks[i].nonl = true;
        }
    }
    while let Some(c) = stack.pop() {
        g.cx = c;
    }
    holes
}

/// A plant that emits one of two templates with the same holes.
pub fn pair(slot: Slot, lvl: u32, cond: fn(&Cx) -> bool, tpl: String, den: u32) -> Plant {
    Plant {
        slot,
        cond,
        make: Rc::new(move |g| {
            lit(g, &tpl);
            match slot {
                Slot::Item => Made::Item(ProgramPart::Stmt(Stmt::Empty)),
                Slot::Stmt => Made::Stmt(Stmt::Empty),
                Slot::Expr => Made::Expr(Expr::Super, lvl),
            }
        }),
        den,
        placed: false,
        at: (0, 0),
    }
}

#[derive(Clone)]
pub struct Row {
    pub group: &'static str,
    pub slot: Slot,
    pub lvl: u32,
    pub cond: fn(&Cx) -> bool,
    pub bad: String,
    pub good: String,
}

pub fn any(_: &Cx) -> bool {
    true
}
pub fn no_func(c: &Cx) -> bool {
    !c.func && !c.new_target
}
pub fn module_top(c: &Cx) -> bool {
    c.module && c.top
}
pub fn in_generator(c: &Cx) -> bool {
    c.yld == Mode::Op
}
pub fn in_async(c: &Cx) -> bool {
    c.awt == Mode::Op
}
pub fn in_method(c: &Cx) -> bool {
    c.super_prop
}
pub fn has_new_target(c: &Cx) -> bool {
    c.new_target
}
pub fn strict(c: &Cx) -> bool {
    c.strict
}
pub fn strict_no_yield(c: &Cx) -> bool {
    c.strict && c.yld == Mode::Ident
}
pub fn sloppy(c: &Cx) -> bool {
    !c.strict
}
pub fn sloppy_no_yield(c: &Cx) -> bool {
    !c.strict && c.yld == Mode::Ident
}
pub fn not_strict_module(c: &Cx) -> bool {
    !c.module
}

pub const I: Slot = Slot::Item;
pub const S: Slot = Slot::Stmt;
pub const X: Slot = Slot::Expr;

type R = (&'static str, Slot, u32, fn(&Cx) -> bool, &'static str, &'static str);

/// early errors: group, slot, level, where, the error, the corrected construct
pub const EARLY: &[R] = &[
    ("return outside a function", S, 0, no_func, "return ;", "debugger ;"),
    ("return outside a function", S, 0, no_func, "return _( $E ) ;", "void ( $E ) ;"),
    ("new.target outside a function", X, PRI, no_func, "new . target", "zq . target"),
    ("new.target outside a function", X, UN, no_func, "! new . target . zr", "! zq . target . zr"),
    // labels
    ("nested label", S, 0, any, "zl : { $B $s $< zl : ; }", "zl : { $B $s $< zm : ; }"),
    ("nested label", S, 0, any, "zl : zl : $B $s $<", "zl : zm : $B $s $<"),
    ("nested label", S, 0, any, "zl : while ( $E ) { $s zl : $s }", "zl : while ( $E ) { $s zm : $s }"),
    ("nested label", S, 0, any, "zl : { function zf ( ) { zl : ; } zl : ; }", "zl : { function zf ( ) { zl : ; } zm : ; }"),
    ("nested label", S, 0, any, "zl : { zf ( ( ) => { } ) ; zl : ; }", "zl : { zf ( ( ) => { zl : ; } ) ; zm : ; }"),
    ("nested label", S, 0, any, "zl : { zm : ; zm : ; zl : ; }", "zl : { zm : ; zm : ; zn : ; }"),
    ("nested label", S, 0, any, "zl : for ( ; ; ) if ( $E ) zl : ; else $s", "zl : for ( ; ; ) if ( $E ) zm : ; else $s"),
    ("nested label", S, 0, any, "zl : switch ( $E ) { case $E : zl : ; }", "zl : switch ( $E ) { case $E : zm : ; }"),
    ("nested label", S, 0, any, "zl : try { $B $i $< } catch ( ze ) { zl : ; }", "zl : try { $B $i $< } catch ( ze ) { zm : ; }"),
    ("nested label", S, 0, any, "zl : zm : { do { zl : $B $s $< } while ( $E ) ; }", "zl : zm : { do { zn : $B $s $< } while ( $E ) ; }"),
    ("nested label", S, 0, any, "{ zl : { zl : ; } }", "{ zl : { } zl : ; }"),
    // switch
    ("two defaults", S, 0, any, "switch ( $E ) { default : $B $i $< default : $B $i $< }", "switch ( $E ) { default : $B $i $< case 0 : $B $i $< }"),
    ("two defaults", S, 0, any, "switch ( $E ) { case $E : default : case $E : default : }", "switch ( $E ) { case $E : default : case $E : case 0 : }"),
    ("two defaults", S, 0, any, "switch ( $E ) { case $E : $B $i $< default : break ; case 1 : case 2 : default : $B $i $< case 3 : }", "switch ( $E ) { case $E : $B $i $< default : break ; case 1 : case 2 : case 4 : $B $i $< case 3 : }"),
    ("two defaults", S, 0, any, "switch ( $E ) { default : switch ( $E ) { default : } default : }", "switch ( $E ) { default : switch ( $E ) { default : } case 0 : }"),
    ("two defaults", S, 0, any, "switch ( $E ) { case 0 : switch ( $E ) { default : default : } }", "switch ( $E ) { default : switch ( $E ) { default : } }"),
    // class members
    ("second constructor", X, PRI, any, "class { constructor ( ) { } $T $m $< constructor ( ) { } }", "class { constructor ( ) { } $T $m $< static constructor ( ) { } }"),
    ("second constructor", I, 0, any, "class zq extends zr { constructor ( ) { } $T $m $m $< constructor ( zs ) { } }", "class zq extends zr { constructor ( ) { } $T $m $m $< [ 'constructor' ] ( zs ) { } }"),
    ("second constructor", X, PRI, any, "class { $T $m $< 'constructor' ( ) { } $T $m $< constructor ( ) { } }", "class { $T $m $< static 'constructor' ( ) { } $T $m $< constructor ( ) { } }"),
    ("second constructor", X, PRI, any, "class { constructor ( ) { } ; ; 'constructor' ( ) { } }", "class { constructor ( ) { } ; ; static 'constructor' ( ) { } }"),
    ("second constructor", X, PRI, any, "class { constructor ( ) { class zr { constructor ( ) { } } } constructor ( ) { } }", "class { constructor ( ) { class zr { constructor ( ) { } } } construct ( ) { } }"),
    ("constructor of another kind", X, PRI, any, "class { $T $m $< get constructor ( ) { } }", "class { $T $m $< static get constructor ( ) { } }"),
    ("constructor of another kind", X, PRI, any, "class { set constructor ( zq ) { } $T $m $< }", "class { static set constructor ( zq ) { } $T $m $< }"),
    ("constructor of another kind", X, PRI, any, "class { $T $m $< * constructor ( ) { } }", "class { $T $m $< static * constructor ( ) { } }"),
    ("constructor of another kind", X, PRI, any, "class { $T $m $< async _constructor ( ) { } }", "class { $T $m $< static async _constructor ( ) { } }"),
    ("constructor of another kind", X, PRI, any, "class { get 'constructor' ( ) { } $T $m $< }", "class { get [ 'constructor' ] ( ) { } $T $m $< }"),
    ("constructor of another kind", X, PRI, any, "class { set 'constructor' ( zq ) { } }", "class { set [ 'constructor' ] ( zq ) { } }"),
    ("constructor of another kind", X, PRI, any, "class extends zr { * 'constructor' ( ) { } }", "class extends zr { * [ 'constructor' ] ( ) { } }"),
    ("constructor of another kind", X, PRI, any, "class { async _\"constructor\" ( ) { } }", "class { static async _\"constructor\" ( ) { } }"),
    ("static prototype", X, PRI, any, "class { $T $m $< static prototype ( ) { } }", "class { $T $m $< prototype ( ) { } }"),
    ("static prototype", X, PRI, any, "class { static get prototype ( ) { } $T $m $< }", "class { get prototype ( ) { } $T $m $< }"),
    ("static prototype", X, PRI, any, "class { static set prototype ( zq ) { } }", "class { set prototype ( zq ) { } }"),
    ("static prototype", X, PRI, any, "class { static * prototype ( ) { } }", "class { static * [ 'prototype' ] ( ) { } }"),
    ("static prototype", X, PRI, any, "class { static async _prototype ( ) { } }", "class { async _prototype ( ) { } }"),
    ("static prototype", X, PRI, any, "class { static 'prototype' ( ) { } }", "class { 'prototype' ( ) { } }"),
    ("static prototype", I, 0, any, "class zq { $T $m $m $< static \"prototype\" ( ) { } }", "class zq { $T $m $m $< static prototypes ( ) { } }"),
    // missing values
    ("missing value", I, 0, any, "const zq ;", "const zq = 1 ;"),
    ("missing value", I, 0, any, "const zq = $e , zr ;", "const zq = $e , zr = 1 ;"),
    ("missing value", I, 0, any, "const zq , zr = $e ;", "let zq , zr = $e ;"),
    ("missing value", S, 0, any, "var [ zq ] ;", "var [ zq ] = 1 ;"),
    ("missing value", S, 0, any, "var zq , { zr } , zs = $e ;", "var zq , { zr } = 1 , zs = $e ;"),
    ("missing value", S, 0, any, "var { zq : [ zr = $e ] } ;", "var { zq : [ zr = $e ] } = 1 ;"),
    ("missing value", I, 0, any, "let [ zq = $e ] ;", "let [ zq = $e ] = 1 ;"),
    ("missing value", I, 0, any, "let zq = $e , { zr } ;", "let zq = $e , { zr } = 1 ;"),
    ("missing value", I, 0, any, "const { zq , ... zr } ;", "const { zq , ... zr } = 1 ;"),
    ("missing value", S, 0, any, "for ( const zq ; $E ; ) $B $s $<", "for ( let zq ; $E ; ) $B $s $<"),
    ("missing value", S, 0, any, "for ( const zq = 1 , zr ; $E ; ) $B $s $<", "for ( const zq = 1 , zr = 1 ; $E ; ) $B $s $<"),
    ("missing value", S, 0, any, "for ( var [ zq ] ; ; ) $B $s $<", "for ( var [ zq ] = 1 ; ; ) $B $s $<"),
    ("missing value", S, 0, any, "for ( let { zq } ; ; ) $B $s $<", "for ( let { zq } = 1 ; ; ) $B $s $<"),
    ("missing value", S, 0, any, "for ( let zq , [ zr ] ; ; ) $B $s $<", "for ( let zq , [ zr ] = 1 ; ; ) $B $s $<"),
    ("missing value", I, 0, module_top, "export const zq ;", "export const zq = 1 ;"),
    ("missing value", I, 0, module_top, "export var { zq } ;", "export var { zq } = 1 ;"),
    ("missing value", I, 0, module_top, "export let zq , [ zr ] ;", "export let zq , [ zr ] = 1 ;"),
    // heads of for loops
    ("value in the head of a for", S, 0, any, "for ( let zq = 1 of $e ) $B $s $<", "for ( let zq of $e ) $B $s $<"),
    ("value in the head of a for", S, 0, any, "for ( var zq = 1 of $e ) $B $s $<", "for ( var zq of $e ) $B $s $<"),
    ("value in the head of a for", S, 0, any, "for ( const zq = 1 of $e ) $B $s $<", "for ( const zq of $e ) $B $s $<"),
    ("value in the head of a for", S, 0, any, "for ( let zq = 1 in $E ) $B $s $<", "for ( let zq in $E ) $B $s $<"),
    ("value in the head of a for", S, 0, any, "for ( const zq = 1 in $E ) $B $s $<", "for ( const zq in $E ) $B $s $<"),
    ("value in the head of a for", S, 0, any, "for ( var [ zq ] = 1 in $E ) $B $s $<", "for ( var [ zq ] in $E ) $B $s $<"),
    ("value in the head of a for", S, 0, any, "for ( var { zq } = 1 of $e ) $B $s $<", "for ( var { zq } of $e ) $B $s $<"),
    ("two names in the head of a for", S, 0, any, "for ( let zq , zr of $e ) $B $s $<", "for ( let [ zq , zr ] of $e ) $B $s $<"),
    ("two names in the head of a for", S, 0, any, "for ( var zq , zr of $e ) $B $s $<", "for ( var [ zq , zr ] of $e ) $B $s $<"),
    ("two names in the head of a for", S, 0, any, "for ( var zq , zr in $E ) $B $s $<", "for ( var { zq , zr } in $E ) $B $s $<"),
    ("two names in the head of a for", S, 0, any, "for ( const zq , zr in $E ) $B $s $<", "for ( const { zq , zr } in $E ) $B $s $<"),
    // accessors
    ("getter with parameters", X, PRI, any, "{ $o , get $k ( zq ) { $M ; $i $< } }", "{ $o , get $k ( ) { $M ; $i $< } }"),
    ("getter with parameters", X, PRI, any, "{ get $k ( ... zq ) { } , $o }", "{ get $k ( ) { } , $o }"),
    ("getter with parameters", X, PRI, any, "{ get $k ( [ zq ] , zr ) { } }", "{ get $k ( ) { } }"),
    ("getter with parameters", X, PRI, any, "class { $T get $k ( zq ) { } $m $< }", "class { $T get $k ( ) { } $m $< }"),
    ("getter with parameters", X, PRI, any, "class { $T $m static get $K ( zq = 1 ) { } $< }", "class { $T $m static get $K ( ) { } $< }"),
    ("setter without one parameter", X, PRI, any, "{ $o , set $k ( ) { $M ; $i $< } }", "{ $o , set $k ( zq ) { $M ; $i $< } }"),
    ("setter without one parameter", X, PRI, any, "{ set $k ( zq , zr ) { } , $o }", "{ set $k ( [ zq , zr ] ) { } , $o }"),
    ("setter without one parameter", X, PRI, any, "{ set $k ( ... zq ) { } , $o }", "{ set $k ( zq ) { } , $o }"),
    ("setter without one parameter", X, PRI, any, "{ set $k ( zq , ... zr ) { } }", "{ set $k ( [ zq , ... zr ] ) { } }"),
    ("setter without one parameter", X, PRI, any, "class { $T set $k ( ) { } $m $< }", "class { $T set $k ( zq ) { } $m $< }"),
    ("setter without one parameter", X, PRI, any, "class { $T $m static set $K ( zq , zr ) { } $< }", "class { $T $m static set $K ( zq ) { } $< }"),
    ("setter without one parameter", X, PRI, any, "class { $T static set $K ( ... zq ) { } $< }", "class { $T static set $K ( zq ) { } $< }"),
    // assignment targets
    ("assignment target", X, ASN, any, "1 = $e", "zq = $e"),
    ("assignment target", X, ASN, any, "'zq' = $e", "zq = $e"),
    ("assignment target", X, ASN, any, "this = $e", "this . zq = $e"),
    ("assignment target", X, ASN, any, "null += $e", "zq += $e"),
    ("assignment target", X, ASN, any, "true = $e", "zq = $e"),
    ("assignment target", X, ASN, any, "`zq` = $e", "zq = $e"),
    ("assignment target", X, ASN, any, "zq `zr` = $e", "zq `zr` . zs = $e"),
    ("assignment target", X, CND, any, "$x + zq = $e", "$x + ( zq = $e )"),
    ("assignment target", X, CND, any, "$x - zq *= $e", "$x - ( zq *= $e )"),
    ("assignment target", X, CND, any, "$x == zq = $e", "$x == ( zq = $e )"),
    ("assignment target", X, CND, any, "$x < zq . zr = $e", "$x < ( zq . zr = $e )"),
    ("assignment target", X, CND, any, "$x && zq = $e", "$x && ( zq = $e )"),
    ("assignment target", X, CND, any, "$x || zq -= $e", "$x || ( zq -= $e )"),
    ("assignment target", X, CND, any, "$x instanceof zq = $e", "$x instanceof ( zq = $e )"),
    ("assignment target", X, CND, any, "$x ** zq = $e", "$x ** ( zq = $e )"),
    ("assignment target", X, CND, any, "$x >>> zq [ 0 ] = $e", "$x >>> ( zq [ 0 ] = $e )"),
    ("assignment target", X, UN, any, "- zq = $e", "- ( zq = $e )"),
    ("assignment target", X, UN, any, "! zq . zr += $e", "! ( zq . zr += $e )"),
    ("assignment target", X, UN, any, "typeof zq = $e", "typeof ( zq = $e )"),
    ("assignment target", X, UN, any, "void zq ^= $e", "void ( zq ^= $e )"),
    ("assignment target", X, ASN, any, "$h ( ) = $e", "$h ( ) . zq = $e"),
    ("assignment target", X, ASN, any, "zq ( $e ) += $e", "zq ( $e ) [ 0 ] += $e"),
    ("assignment target", X, ASN, any, "new zq = $e", "( new zq ) . zr = $e"),
    ("assignment target", X, ASN, any, "new zq ( $e ) = $e", "new zq ( $e ) . zr = $e"),
    ("assignment target", X, SEQ_L, any, "zq _++ = $e", "zq _++ , zr = $e"),
    ("assignment target", X, UN, any, "-- zq = $e", "- ( zq = $e )"),
    ("assignment target", X, ASN, any, "( zq , zr ) = $e", "( zr ) = $e"),
    ("assignment target", X, ASN, any, "( $x + zq ) = $e", "( $x + zq ) . zr = $e"),
    ("assignment target", X, ASN, any, "( zq => zr ) = $e", "( zq => zr ) . zs = $e"),
    ("assignment target", X, ASN, any, "zq => { } = $e", "( zq => { } , { } = $e )"),
    ("assignment target", X, ASN, any, "( async _zq => zr ) = $e", "( async _zq => zr ) . zs = $e"),
    ("assignment target", X, ASN, any, "zq = 1 = $e", "zq = zr = $e"),
    ("assignment target", X, ASN, any, "zq = ( zr = 1 ) = $e", "zq = ( zr = 1 ) . zs = $e"),
    ("assignment target", X, ASN, any, "zq ? zr : 1 = $e", "zq ? zr : zs = $e"),
    ("assignment target", X, ASN, any, "function ( ) { } = $e", "function ( ) { } . zq = $e"),
    ("assignment target", X, ASN, any, "class { } = $e", "class { } . zq = $e"),
    ("assignment target", X, ASN, any, "import ( $e ) = $e", "import ( $e ) . zq = $e"),
    ("assignment target", X, ASN, has_new_target, "new . target = $e", "new . target . zr = $e"),
    ("assignment target", X, UN, in_async, "await zq = $e", "await ( zq = $e )"),
    ("assignment target", X, UN, in_async, "++ await zq", "+ await zq"),
    // targets in patterns
    ("pattern target", X, ASN, any, "[ 1 ] = $e", "[ zq ] = $e"),
    ("pattern target", X, ASN, any, "[ $x + zr ] = $e", "[ ( $x ) . zr ] = $e"),
    ("pattern target", X, ASN, any, "[ zq ( ) ] = $e", "[ zq ( ) . zr ] = $e"),
    ("pattern target", X, ASN, any, "[ zq , zr _++ ] = $e", "[ zq , zr ] = $e"),
    ("pattern target", X, ASN, any, "[ , ... zq , zr ] = $e", "[ , zr , ... zq ] = $e"),
    ("pattern target", X, ASN, any, "[ ... zq = 1 ] = $e", "[ ... zq ] = $e"),
    ("pattern target", X, ASN, any, "[ ... zq , ] = $e", "[ ... zq ] = $e"),
    ("pattern target", X, ASN, any, "[ ... zq ( ) ] = $e", "[ ... zq ( ) [ 0 ] ] = $e"),
    ("pattern target", X, ASN, any, "[ [ 1 ] ] = $e", "[ [ zq ] ] = $e"),
    ("pattern target", X, ASN, any, "[ { zq : 1 } ] = $e", "[ { zq : zr } ] = $e"),
    ("pattern target", X, ASN, any, "[ ( [ zq ] ) ] = $e", "[ ( zq ) ] = $e"),
    ("pattern target", X, ASN, any, "[ ( { zq } ) ] = $e", "[ { zq } ] = $e"),
    ("pattern target", X, ASN, any, "[ ( zq = 1 ) ] = $e", "[ zq = 1 ] = $e"),
    ("pattern target", X, ASN, any, "[ zq => zr ] = $e", "[ zq = zr ] = $e"),
    ("pattern target", X, ASN, any, "( [ zq ] ) = $e", "( zq ) = $e"),
    ("pattern target", X, ASN, any, "( { zq } ) = $e", "{ zq } = $e"),
    ("pattern target", X, ASN, any, "{ zq : 1 } = $e", "{ zq : zr } = $e"),
    ("pattern target", X, ASN, any, "{ zq : zr ( ) } = $e", "{ zq : zr . zs } = $e"),
    ("pattern target", X, ASN, any, "{ zq : zr + 1 } = $e", "{ zq : zr = 1 } = $e"),
    ("pattern target", X, ASN, any, "{ zq : [ this ] } = $e", "{ zq : [ this . zr ] } = $e"),
    ("pattern target", X, ASN, any, "{ zq ( ) { } } = $e", "{ zq } = $e"),
    ("pattern target", X, ASN, any, "{ get zq ( ) { } } = $e", "{ get : zq } = $e"),
    ("pattern target", X, ASN, any, "{ zr , * zq ( ) { } } = $e", "{ zr , zq } = $e"),
    ("pattern target", X, ASN, any, "{ ... zq , zr } = $e", "{ zr , ... zq } = $e"),
    ("pattern target", X, ASN, any, "{ ... { zq } } = $e", "{ ... zq } = $e"),
    ("pattern target", X, ASN, any, "{ ... [ zq ] } = $e", "[ ... { zq } ] = $e"),
    ("pattern target", X, ASN, any, "[ zq ] += $e", "zq += $e"),
    ("pattern target", X, ASN, any, "{ zq } -= $e", "{ zq } = $e"),
    ("pattern target", X, ASN, any, "[ zq . zr ] **= $e", "[ zq . zr ] = $e"),
    // updates
    ("update target", X, UN, any, "++ zq ( )", "++ zq ( ) . zr"),
    ("update target", X, UN, any, "-- 1", "-- zq"),
    ("update target", X, UN, any, "++ this", "++ this . zq"),
    ("update target", X, UN, any, "++ zq _++", "+ zq _++"),
    ("update target", X, UN, any, "++ ( $x + zq )", "+ ( $x + zq )"),
    ("update target", X, UN, any, "-- [ zq ]", "-- [ zq ] [ 0 ]"),
    ("update target", X, UN, any, "++ - zq", "+ - zq"),
    ("update target", X, UN, any, "-- { }", "- { }"),
    ("update target", X, UN, any, "++ 'zq'", "+ 'zq'"),
    ("update target", X, UN, any, "-- zq `zr`", "-- zq `zr` . zs"),
    ("update target", X, UN, any, "++ new zq", "++ new zq ( ) . zr"),
    ("update target", X, POST, any, "zq ( ) _++", "zq ( ) . zr _++"),
    ("update target", X, POST, any, "1 _--", "zq _--"),
    ("update target", X, POST, any, "( zq , zr ) _++", "( zq ) _++"),
    ("update target", X, POST, any, "( $x + zq ) _--", "( $x + zq ) . zr _--"),
    ("update target", X, POST, any, "this _++", "this . zq _++"),
    ("update target", X, POST, any, "[ zq ] _++", "[ zq ] [ 0 ] _++"),
    ("update target", X, POST, any, "( zq = zr ) _++", "( zq = zr ) [ 0 ] _++"),
    // for heads
    ("target in the head of a for", S, 0, any, "for ( zq ( ) of $e ) $B $s $<", "for ( zq ( ) . zr of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( zq ( ) in $E ) $B $s $<", "for ( zq ( ) . zr in $E ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( 1 of $e ) $B $s $<", "for ( zq of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( this in $E ) $B $s $<", "for ( zq in $E ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( zq + zr in $E ) $B $s $<", "for ( zq [ zr ] in $E ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( zq , zr of $e ) $B $s $<", "for ( [ zq , zr ] of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( zq = 1 of $e ) $B $s $<", "for ( zq of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( zq = 1 in $E ) $B $s $<", "for ( zq in $E ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( [ zq + 1 ] of $e ) $B $s $<", "for ( [ zq = 1 ] of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( { zq : 1 } of $e ) $B $s $<", "for ( { zq : zr } of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( ( zq , zr ) of $e ) $B $s $<", "for ( ( zq ) of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( [ zq ] = 1 of $e ) $B $s $<", "for ( [ zq ] of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( zq _++ of $e ) $B $s $<", "for ( zq of $e ) $B $s $<"),
    ("target in the head of a for", S, 0, any, "for ( [ ... zq , zr ] of $e ) $B $s $<", "for ( [ zr , ... zq ] of $e ) $B $s $<"),
    // parameters of arrows
    ("arrow parameter", X, ASN, any, "( zq + zr ) => zs", "( zq = zr ) => zs"),
    ("arrow parameter", X, ASN, any, "( 1 ) => zs", "( zq ) => zs"),
    ("arrow parameter", X, ASN, any, "( zq . zr ) => zs", "( zq = zr . zs ) => zs"),
    ("arrow parameter", X, ASN, any, "( zq , zr [ 0 ] ) => { }", "( zq , [ zr ] ) => { }"),
    ("arrow parameter", X, ASN, any, "( [ zq . zr ] ) => zs", "( [ zq ] ) => zs"),
    ("arrow parameter", X, ASN, any, "( { zq : zr . zs } ) => zs", "( { zq : zr } ) => zs"),
    ("arrow parameter", X, ASN, any, "( zq ( ) ) => zs", "( zq = zr ( ) ) => zs"),
    ("arrow parameter", X, ASN, any, "( this ) => zs", "( zq = this ) => zs"),
    ("arrow parameter", X, ASN, any, "( zq , ( zr ) ) => zs", "( zq , zr ) => zs"),
    ("arrow parameter", X, ASN, any, "( zq , [ ( zr ) ] ) => zs", "( zq , [ zr ] ) => zs"),
    ("arrow parameter", X, ASN, any, "( ( zq , zr ) ) => zs", "( zq , zr ) => zs"),
    ("arrow parameter", X, ASN, any, "( zq , zr += 1 ) => zs", "( zq , zr = 1 ) => zs"),
    ("arrow parameter", X, ASN, any, "( { zq ( ) { } } ) => zs", "( { zq } ) => zs"),
    ("arrow parameter", X, ASN, any, "( 'zq' , zr ) => zs", "( zq , zr ) => zs"),
    ("arrow parameter", X, ASN, any, "[ zq ] => zs", "( [ zq ] ) => zs"),
    ("arrow parameter", X, ASN, any, "{ zq } => zs", "( { zq } ) => zs"),
    ("arrow parameter", X, ASN, any, "zq ( zr ) => zs", "zq ( zr => zs )"),
    ("arrow parameter", X, ASN, any, "zq . async ( zr ) => zs", "zq . async ( zr => zs )"),
    ("arrow parameter", X, ASN, any, "async _( zq . zr ) => zs", "async _( zq ) => zs"),
    ("arrow parameter", X, ASN, any, "async _( zq , zr + 1 ) => zs", "async _( zq , zr = 1 ) => zs"),
    ("arrow parameter", X, ASN, any, "async _( 1 ) => zs", "async _( ) => zs"),
    ("arrow parameter", X, ASN, any, "async _( [ zq . zr ] ) => zs", "async _( [ zq ] ) => zs"),
    ("arrow parameter", X, ASN, any, "async _( zq ( ) , zr ) => zs", "async _( zq = zs ( ) , zr ) => zs"),
    ("arrow parameter", X, ASN, any, "async _( zq , ( zr ) ) => zs", "async _( zq , zr ) => zs"),
    ("arrow parameter", X, ASN, any, "async _( await ) => zs", "async _( zq ) => zs"),
    // rest elements
    ("rest element", X, ASN, any, "( ... zq , zr ) => zs", "( zr , ... zq ) => zs"),
    ("rest element", X, ASN, any, "( ... zq = 1 ) => zs", "( ... zq ) => zs"),
    ("rest element", X, ASN, any, "( zr , ... zq , ) => zs", "( zr , ... zq ) => zs"),
    ("rest element", X, ASN, any, "async _( ... zq , zr ) => zs", "async _( zr , ... zq ) => zs"),
    ("rest element", X, ASN, any, "async _( zr , ... zq = 1 ) => zs", "async _( zr , ... zq ) => zs"),
    ("rest element", X, ASN, any, "( [ ... zq , zr ] ) => zs", "( [ zr , ... zq ] ) => zs"),
    ("rest element", X, ASN, any, "( { ... zq , zr } ) => zs", "( { zr , ... zq } ) => zs"),
    ("rest element", X, ASN, any, "( [ ... zq = 1 ] ) => zs", "( [ ... zq ] ) => zs"),
    ("rest element", I, 0, any, "function zq ( ... zr , zs ) { $F ; $i $< }", "function zq ( zs , ... zr ) { $F ; $i $< }"),
    ("rest element", I, 0, any, "function * zq ( zs , ... zr = 1 ) { $G ; $i $< }", "function * zq ( zs , ... zr ) { $G ; $i $< }"),
    ("rest element", X, PRI, any, "function ( ... zr , ) { $F ; $i $< }", "function ( zr , ) { $F ; $i $< }"),
    ("rest element", X, PRI, any, "async _function ( [ ... zr , zs ] ) { $A ; $i $< }", "async _function ( [ zs , ... zr ] ) { $A ; $i $< }"),
    ("rest element", X, PRI, any, "{ $k ( ... zq , zr ) { } , $o }", "{ $k ( zr , ... zq ) { } , $o }"),
    ("rest element", X, PRI, any, "class { $T $k ( ... zq = 1 ) { } $m $< }", "class { $T $k ( ... zq ) { } $m $< }"),
    ("rest element", X, PRI, any, "class { $T static * $K ( ... zq , zr ) { } $m $< }", "class { $T static * $K ( zq , ... zr ) { } $m $< }"),
    ("rest element", S, 0, any, "var [ ... zq , zr ] = $e ;", "var [ zr , ... zq ] = $e ;"),
    ("rest element", S, 0, any, "var zr , [ ... zq = 1 ] = $e ;", "var zr , [ ... zq ] = $e ;"),
    ("rest element", S, 0, any, "var [ ... zq , ] = $e ;", "var [ ... [ zq , ] ] = $e ;"),
    ("rest element", S, 0, any, "var { ... zq , zr } = $e ;", "var { zr , ... zq } = $e ;"),
    ("rest element", S, 0, any, "var { ... zq = 1 } = $e ;", "var { zq = 1 } = $e ;"),
    ("rest element", S, 0, any, "var { ... { zq } } = $e ;", "var [ ... { zq } ] = $e ;"),
    ("rest element", I, 0, any, "let { zq , ... [ zr ] } = $e ;", "let [ zq , ... [ zr ] ] = $e ;"),
    ("rest element", I, 0, any, "const [ ... zq , zr ] = $e ;", "const [ zr , ... zq ] = $e ;"),
    ("rest element", S, 0, any, "try { } catch ( [ ... zq , zr ] ) { $B $i $< }", "try { } catch ( [ zr , ... zq ] ) { $B $i $< }"),
    ("rest element", S, 0, any, "try { } catch ( { ... zq , zr } ) { $B $i $< }", "try { } catch ( { zr , ... zq } ) { $B $i $< }"),
    ("rest element", S, 0, any, "for ( let [ ... zq , zr ] of $e ) $B $s $<", "for ( let [ zr , ... zq ] of $e ) $B $s $<"),
    // super
    ("import call", X, CAL, any, "import ( zq , zr )", "import ( zq ) . zr"),
    ("import call", X, CAL, any, "import ( ... zq )", "import ( [ ... zq ] )"),
    ("import call", X, CAL, any, "import ( ) . zr ( )", "import ( zq ) . zr ( )"),
    ("import call", X, CAL, any, "import ( $e , $e )", "import ( ( $e , $e ) )"),
    ("import call", X, ASN, any, "import ( zq ) = $e", "import ( zq ) . zr = $e"),
    ("bare super", X, SEQ_L, in_method, "super", "super . zr"),
    ("bare super", X, SEQ_L, in_method, "super + $x", "super . zq + $x"),
    ("bare super", X, SEQ_L, in_method, "( super )", "( super . zr )"),
    ("bare super", X, SEQ_L, in_method, "[ $e , super ]", "[ $e , super . zr ]"),
    ("bare super", X, SEQ_L, in_method, "super = $e", "super [ 0 ] = $e"),
    ("bare super", X, SEQ_L, in_method, "typeof super", "typeof super . zr"),
    ("bare super", X, SEQ_L, in_method, "zq ( super )", "zq ( super [ 0 ] )"),
    ("bare super", X, SEQ_L, in_method, "super `zq`", "super . zr `zq`"),
    ("bare super", X, SEQ_L, in_method, "super . zr , super", "super . zr , super . zs"),
    ("super at the top", X, PRI, no_func, "super . zq", "zr . zq"),
    ("super at the top", X, PRI, no_func, "super ( $e )", "zr ( $e )"),
    // names
    ("let as a lexical name", I, 0, any, "let let = $e ;", "let zq = $e ;"),
    ("let as a lexical name", I, 0, any, "const let = $e ;", "const zq = $e ;"),
    ("let as a lexical name", I, 0, any, "let zq , let = $e ;", "let zq , zr = $e ;"),
    ("let as a lexical name", I, 0, any, "class let { $T $m $< }", "class zq { $T $m $< }"),
    ("let as a lexical name", S, 0, any, "for ( let let of $e ) $B $s $<", "for ( let zq of $e ) $B $s $<"),
    ("let as a lexical name", S, 0, any, "for ( const let in $E ) $B $s $<", "for ( const zq in $E ) $B $s $<"),
    ("yield as a name in a generator", S, 0, in_generator, "var yield ;", "var zq ;"),
    ("yield as a name in a generator", S, 0, in_generator, "yield : $s", "zq : $s"),
    ("yield as a name in a generator", S, 0, in_generator, "var [ yield ] = $e ;", "var [ zq ] = $e ;"),
    ("yield as a name in a generator", S, 0, in_generator, "var { zq : yield } = $e ;", "var { yield : zq } = $e ;"),
    ("yield as a name in a generator", S, 0, in_generator, "try { } catch ( yield ) { }", "try { } catch ( zq ) { }"),
    ("yield as a name in a generator", I, 0, in_generator, "let yield = $e ;", "let zq = $e ;"),
    ("yield as a name in a generator", I, 0, in_generator, "class yield { $T $m $< }", "class zq { $T $m $< }"),
    ("yield as a name in a generator", I, 0, in_generator, "function yield ( ) { }", "function zq ( ) { }"),
    ("yield as a name in a generator", X, PRI, in_generator, "{ yield }", "{ zq }"),
    ("yield as a name in a generator", X, ASN, in_generator, "( yield ) => zs", "( zq ) => zs"),
    ("yield as a name in a generator", X, ASN, in_generator, "yield => zs", "zq => zs"),
    ("await as a name in an async function", S, 0, in_async, "var await ;", "var zq ;"),
    ("await as a name in an async function", S, 0, in_async, "await : $s", "zq : $s"),
    ("await as a name in an async function", S, 0, in_async, "var [ await ] = $e ;", "var [ zq ] = $e ;"),
    ("await as a name in an async function", S, 0, in_async, "try { } catch ( { await } ) { }", "try { } catch ( { zq } ) { }"),
    ("await as a name in an async function", I, 0, in_async, "const await = $e ;", "const zq = $e ;"),
    ("await as a name in an async function", I, 0, in_async, "class await { $T $m $< }", "class zq { $T $m $< }"),
    ("await as a name in an async function", I, 0, in_async, "function await ( ) { }", "function zq ( ) { }"),
    ("await as a name in an async function", X, PRI, in_async, "{ await }", "{ zq }"),
    ("await as a name in an async function", X, ASN, in_async, "( await ) => zs", "( zq ) => zs"),
    // bodies
    ("lexical declaration as a body", S, 0, any, "if ( $E ) const zq = $e ;", "if ( $E ) { const zq = $e ; }"),
    ("lexical declaration as a body", S, 0, any, "while ( $E ) const zq = $e ;", "while ( $E ) { const zq = $e ; }"),
    ("lexical declaration as a body", S, 0, any, "for ( ; ; ) let zq = $e ;", "for ( ; ; ) { let zq = $e ; }"),
    ("lexical declaration as a body", S, 0, any, "zl : const zq = $e ;", "zl : { const zq = $e ; }"),
    ("unary base of a power", X, UN, any, "- zq ** $x", "- ( zq ** $x )"),
    ("unary base of a power", X, UN, any, "+ zq ** $x", "+ ( zq ** $x )"),
    ("unary base of a power", X, UN, any, "! zq ** $x", "! ( zq ** $x )"),
    ("unary base of a power", X, UN, any, "~ zq ** $x", "~ ( zq ** $x )"),
    ("unary base of a power", X, UN, any, "typeof zq ** $x", "typeof ( zq ** $x )"),
    ("unary base of a power", X, UN, any, "void zq ** $x", "void ( zq ** $x )"),
    ("unary base of a power", X, UN, any, "delete zq . zr ** $x", "delete ( zq . zr ** $x )"),
    ("unary base of a power", X, CND, any, "- ! zq ( ) ** $x", "( - ! zq ( ) ) ** $x"),
    ("unary base of a power", X, CND, any, "$x ** - zq ** $x", "$x ** - ( zq ** $x )"),
    ("unary base of a power", X, UN, any, "typeof ( zq ) . zr ** zs ** zt", "typeof ( ( zq ) . zr ** zs ** zt )"),
    ("unary base of a power", X, CND, any, "$x * - zq ** $x", "$x * - ( zq ** $x )"),
    ("unary base of a power", X, CND, any, "$x + ! [ zq ] ** $x", "$x + ! [ zq ** $x ]"),
    ("unary base of a power", X, CND, in_async, "await zq ** $x", "( await zq ) ** $x"),
    ("unary base of a power", X, UN, in_async, "await zq ( ) . zr ** $x", "await ( zq ( ) . zr ** $x )"),
    ("for head", S, 0, any, "for ( zq , zr in $x ; ; ) $B $s $<", "for ( zq , ( zr in $x ) ; ; ) $B $s $<"),
    ("for head", S, 0, any, "for ( zq = zo , zr in $x ; ; ) $B $s $<", "for ( zq = zo , [ zr in $x ] ; ; ) $B $s $<"),
    ("for head", S, 0, any, "for ( zo , zq , zr in $E ) $B $s $<", "for ( zo , zq , zr ; $E ; ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( zq in $E ) $B $s $<", "for ( zq in $E ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( ; ; ) $B $s $<", "for ( ; ; ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( zq ; ; ) $B $s $<", "for ( zq ; ; ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( var zq in $E ) $B $s $<", "for ( var zq in $E ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( let zq in $E ) $B $s $<", "for ( let zq in $E ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( const [ zq ] in $E ) $B $s $<", "for ( const [ zq ] in $E ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( var zq = $x ; ; ) $B $s $<", "for ( var zq = $x ; ; ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( let zq ; $E ; $E ) $B $s $<", "for ( let zq ; $E ; $E ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( zq . zr in $e ) $B $s $<", "for ( zq . zr in $e ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( [ zq ] in $E ) $B $s $<", "for ( [ zq ] in $E ) $B $s $<"),
    ("for await that is no for of", S, 0, in_async, "for await ( const zq of zr , zs ) $B $s $<", "for await ( const zq of ( zr , zs ) ) $B $s $<"),
    ("let as a lexical name", I, 0, any, "let [ let ] = $e ;", "let [ zq ] = $e ;"),
    ("let as a lexical name", I, 0, any, "let { zq : let } = $e ;", "let { let : zq } = $e ;"),
    ("let as a lexical name", I, 0, any, "const { let } = $e ;", "const { zq } = $e ;"),
    ("let as a lexical name", I, 0, any, "const [ ... let ] = $e ;", "const [ ... zq ] = $e ;"),
    ("let as a lexical name", I, 0, any, "let { zq , ... let } = $e ;", "let { zq , ... zr } = $e ;"),
    ("let as a lexical name", I, 0, any, "const { let = 1 } = $e ;", "const { zq = 1 } = $e ;"),
    ("let as a lexical name", I, 0, any, "let zo , [ zq , { zr : [ let ] } ] = $e ;", "let zo , [ zq , { let : [ zr ] } ] = $e ;"),
    ("let as a lexical name", I, 0, any, "let [ zq , let = 1 ] = $e ;", "let [ zq , zr = 1 ] = $e ;"),
    ("let as a lexical name", S, 0, any, "for ( let [ let ] of $e ) $B $s $<", "for ( let [ zq ] of $e ) $B $s $<"),
    ("let as a lexical name", S, 0, any, "for ( const { zq : let } in $E ) $B $s $<", "for ( const { let : zq } in $E ) $B $s $<"),
    ("let as a lexical name", S, 0, any, "for ( let { let } = $x ; ; ) $B $s $<", "for ( let { zq } = $x ; ; ) $B $s $<"),
    ("let as a lexical name", S, 0, any, "for ( let zq = $x , let ; ; ) $B $s $<", "for ( let zq = $x , zr ; ; ) $B $s $<"),
    ("export of a reserved word", I, 0, module_top, "export { if } ;", "export { zq } ;"),
    ("export of a reserved word", I, 0, module_top, "export { if } ;", "export { if } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { zq , this } ;", "export { zq , zr } ;"),
    ("export of a reserved word", I, 0, module_top, "export { zq , this } ;", "export { zq , this } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { null as zr } ;", "export { zq as null } ;"),
    ("export of a reserved word", I, 0, module_top, "export { null as zr } ;", "export { null as zr } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { let } ;", "export { zq } ;"),
    ("export of a reserved word", I, 0, module_top, "export { let } ;", "export { let } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { static as zq } ;", "export { zq as static } ;"),
    ("export of a reserved word", I, 0, module_top, "export { static as zq } ;", "export { static as zq } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { zq , yield , zr } ;", "export { zq , zs as yield , zr } ;"),
    ("export of a reserved word", I, 0, module_top, "export { zq , yield , zr } ;", "export { zq , yield , zr } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { true } ;", "export { zq as true } ;"),
    ("export of a reserved word", I, 0, module_top, "export { true } ;", "export { true } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { typeof as typeof } ;", "export { zq as typeof } ;"),
    ("export of a reserved word", I, 0, module_top, "export { typeof as typeof } ;", "export { typeof as typeof } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { function as zq , } ;", "export { zq as function , } ;"),
    ("export of a reserved word", I, 0, module_top, "export { function as zq , } ;", "export { function as zq , } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { enum } ;", "export { zq } ;"),
    ("export of a reserved word", I, 0, module_top, "export { enum } ;", "export { enum } from 'zp' ;"),
    ("export of a reserved word", I, 0, module_top, "export { implements } ;", "export { zq as implements } ;"),
    ("export of a reserved word", I, 0, module_top, "export { implements } ;", "export { implements } from 'zp' ;"),
    ("arrow parameter", X, ASN, any, "( ( zq ) ) => zs", "( zq ) => zs"),
    ("arrow parameter", X, ASN, any, "( ( [ zq ] ) ) => zs", "( [ zq ] ) => zs"),
    ("arrow parameter", X, ASN, any, "( ( zq , zr ) , ) => zs", "( zq , zr , ) => zs"),
    ("arrow parameter", X, ASN, any, "( ( zq ) , zr ) => zs", "( zq , zr ) => zs"),
    ("arrow parameter", X, ASN, any, "async _( ( zq ) ) => zs", "async _( zq ) => zs"),
    ("arrow parameter", X, ASN, any, "( ( ) ) => zs", "( ) => zs"),
    // exports
    ("export of default", I, 0, module_top, "export { default } ;", "export { default } from 'zq' ;"),
    ("export of default", I, 0, module_top, "export { default as zq } ;", "export { default as zq } from 'zq' ;"),
    ("export of default", I, 0, module_top, "export { zq , default , zr } ;", "export { zq , default , zr } from 'zq' ;"),
];

/// a reserved word where a name is bound; %w is the word
pub const BINDS: &[(Slot, u32, fn(&Cx) -> bool, &str)] = &[
    (S, 0, any, "var %w ;"),
    (S, 0, any, "var zp , %w = $e ;"),
    (S, 0, any, "var [ %w ] = $e ;"),
    (S, 0, any, "var { %w } = $e ;"),
    (S, 0, any, "var { %w = 1 } = $e ;"),
    (S, 0, any, "var { zp : %w } = $e ;"),
    (S, 0, any, "var [ zp , ... %w ] = $e ;"),
    (S, 0, any, "var { ... %w } = $e ;"),
    (I, 0, any, "let %w = $e ;"),
    (I, 0, any, "const %w = $e ;"),
    (I, 0, any, "let zp , [ %w ] = $e ;"),
    (I, 0, any, "function %w ( ) { }"),
    (I, 0, any, "function * %w ( ) { }"),
    (I, 0, any, "async _function %w ( ) { }"),
    (I, 0, any, "class %w { }"),
    (I, 0, any, "function zp ( %w ) { }"),
    (I, 0, any, "function zp ( zo , %w = 1 ) { }"),
    (I, 0, any, "function zp ( ... %w ) { }"),
    (I, 0, any, "function zp ( [ %w ] ) { }"),
    (I, 0, any, "function zp ( { zo : %w } ) { }"),
    (I, 0, any, "function zp ( { %w } ) { }"),
    (S, 0, any, "try { } catch ( %w ) { $B $i $< }"),
    (S, 0, any, "try { } catch ( [ %w ] ) { $B $i $< }"),
    (S, 0, any, "for ( var %w of $e ) $B $s $<"),
    (S, 0, any, "for ( let %w in $E ) $B $s $<"),
    (S, 0, any, "for ( const [ %w ] of $e ) $B $s $<"),
    (S, 0, any, "for ( let %w = 1 ; ; ) $B $s $<"),
    (S, 0, any, "%w : ;"),
    (X, ASN, any, "%w => zs"),
    (X, ASN, any, "( %w ) => zs"),
    (X, ASN, any, "( zp , %w ) => zs"),
    (X, ASN, any, "( [ %w ] ) => zs"),
    (X, ASN, any, "( { %w } ) => zs"),
    (X, ASN, any, "( { zp : %w } ) => zs"),
    (X, ASN, any, "( ... %w ) => zs"),
    (X, ASN, any, "async _%w => zs"),
    (X, ASN, any, "async _( %w ) => zs"),
    (X, ASN, any, "async _( zp , { %w } ) => zs"),
    (X, PRI, any, "function %w ( ) { $F ; $i $< }"),
    (X, PRI, any, "function ( %w ) { $F ; $i $< }"),
    (X, PRI, any, "class %w { $T $m $< }"),
    (X, PRI, any, "{ $k ( %w ) { } }"),
    (X, PRI, any, "class { $T set $k ( %w ) { } $< }"),
    (X, PRI, any, "{ $o , %w }"),
    (X, ASN, any, "{ %w } = $e"),
    (X, ASN, any, "{ %w = $e } = $e"),
    (I, 0, module_top, "import %w from 'zp' ;"),
    (I, 0, module_top, "import { %w } from 'zp' ;"),
    (I, 0, module_top, "import { zp as %w } from 'zp' ;"),
    (I, 0, module_top, "import * as %w from 'zp' ;"),
    (I, 0, module_top, "import zp , { %w } from 'zp' ;"),
    (I, 0, module_top, "export var %w ;"),
    (I, 0, module_top, "export function %w ( ) { }"),
    (I, 0, module_top, "export class %w { }"),
    (I, 0, module_top, "export const [ %w ] = $e ;"),
];

/// what cannot be assigned to; the flag: an assignment or `in` after it would belong to its last part
pub const NOT_TARGETS: &[(fn(&Cx) -> bool, bool, &str)] = &[
    (any, false, "1"),
    (any, false, "'zq'"),
    (any, false, "true"),
    (any, false, "false"),
    (any, false, "null"),
    (any, false, "this"),
    (any, false, "`zq`"),
    (any, false, "zq `zr`"),
    (any, false, "- zq"),
    (any, false, "+ zq"),
    (any, false, "! zq"),
    (any, false, "typeof zq"),
    (any, false, "void zq"),
    (any, false, "delete zq . zr"),
    (any, false, "++ zq"),
    (any, false, "-- zq . zr"),
    (any, false, "zq _++"),
    (any, false, "zq . zr _--"),
    (any, false, "zq + zr"),
    (any, false, "$x - zq"),
    (any, false, "zq * zr"),
    (any, false, "zq % zr . zs"),
    (any, false, "zq ** zr"),
    (any, false, "zq << zr"),
    (any, false, "zq < zr"),
    (any, false, "zq == zr"),
    (any, false, "zq & zr"),
    (any, false, "zq && zr"),
    (any, false, "$x || zq"),
    (any, true, "zq in zr"),
    (any, false, "zq instanceof zr"),
    (any, false, "( zq , zr )"),
    (any, true, "zq ? zr : zs"),
    (any, true, "zq => zr"),
    (any, true, "( zq , [ zr ] ) => { }"),
    (any, true, "async _zq => zr"),
    (any, true, "async _( ) => { }"),
    (any, false, "( zq => zr )"),
    (any, false, "( zq ? zr : zs )"),
    (any, false, "( zq + zr )"),
    (any, false, "( zq = 1 )"),
    (any, false, "( [ zq ] )"),
    (any, false, "( { zq } )"),
    (any, false, "function ( ) { }"),
    (any, false, "function * ( ) { }"),
    (any, false, "async _function ( ) { }"),
    (any, false, "class { }"),
    (any, false, "zq ( )"),
    (any, false, "zq . zr ( $e )"),
    (any, false, "async _( zq )"),
    (any, false, "new zq"),
    (any, false, "new zq ( $e )"),
    (any, false, "{ zq ( ) { } }"),
    (any, false, "{ zq , get zr ( ) { } }"),
    (any, false, "{ set zr ( zs ) { } , zq }"),
    (any, false, "{ * zq ( ) { } }"),
    (any, false, "{ async _zq ( ) { } }"),
    (any, false, "{ zq : 1 }"),
    (any, false, "{ zq : { zr : zs + 1 } }"),
    (any, false, "[ 1 ]"),
    (any, false, "[ zq , [ zr ( ) ] ]"),
    (any, false, "[ ... zq , zr ]"),
    (any, false, "[ ... zq = 1 ]"),
    (any, false, "[ ... zq , ]"),
    (any, false, "{ ... zq , zr }"),
    (any, false, "{ ... { zq } }"),
    (any, false, "{ ... [ zq ] }"),
    (any, false, "import ( zq )"),
    (any, true, "zq += 1"),
    (any, true, "zq . zr **= 1"),
    (has_new_target, false, "new . target"),
    (in_async, false, "await zq"),
    (in_generator, true, "yield _zq"),
];

/// what can be assigned to, but is no name or pattern to bind
pub const NOT_BINDINGS: &[(fn(&Cx) -> bool, bool, &str)] = &[
    (any, false, "zq . zr"),
    (any, false, "zq [ 0 ]"),
    (any, false, "zq ( ) . zr"),
    (any, false, "( zq )"),
    (any, false, "( zq . zr )"),
    (any, false, "[ zq . zr ]"),
    (any, false, "[ ( zq ) ]"),
    (any, false, "[ ... zq . zr ]"),
    (any, false, "[ zq , ... zr [ 0 ] ]"),
    (any, false, "{ zq : zr . zs }"),
    (any, false, "{ zq : ( zr ) }"),
    (any, false, "{ zq : [ zr . zs ] }"),
    (any, false, "{ ... zq . zr }"),
    (any, false, "this . zq"),
    (in_method, false, "super . zq"),
];

pub const AS_TARGET: &[(Slot, u32, bool, &str)] = &[
    (X, ASN, false, "%b = $e"),
    (X, ASN, false, "%b += $e"),
    (X, ASN, true, "[ %b ] = $e"),
    (X, ASN, true, "[ , %b , ] = $e"),
    (X, ASN, true, "[ zp , %b ] = $e"),
    (X, ASN, true, "[ %b , zp ] = $e"),
    (X, ASN, true, "[ %b = $e ] = $e"),
    (X, ASN, true, "[ ... %b ] = $e"),
    (X, ASN, true, "[ [ %b ] , zp ] = $e"),
    (X, ASN, true, "[ { zp : %b } ] = $e"),
    (X, ASN, true, "zo = [ %b ] = $e"),
    (X, ASN, true, "{ zp : %b } = $e"),
    (X, ASN, true, "{ zp : %b , zo } = $e"),
    (X, ASN, true, "{ zp , zo : %b } = $e"),
    (X, ASN, true, "{ zp : %b = $e } = $e"),
    (X, ASN, true, "{ $k : %b } = $e"),
    (X, ASN, true, "{ zp : [ %b ] , ... zo } = $e"),
    (X, ASN, true, "{ 'zp' : { zo : %b } } = $e"),
    (X, ASN, true, "{ ... %b } = $e"),
    (S, 0, true, "for ( [ %b ] of $e ) $B $s $<"),
    (S, 0, true, "for ( [ zp , %b ] in $E ) $B $s $<"),
    (S, 0, true, "for ( { zp : %b } of $e ) $B $s $<"),
    (S, 0, true, "for ( { zp : [ %b ] , zo } in $E ) $B $s $<"),
    (S, 0, false, "for ( %b of $e ) $B $s $<"),
    (S, 0, false, "for ( %b in $E ) $B $s $<"),
];

pub const AS_BINDING: &[(Slot, u32, bool, &str)] = &[
    (X, ASN, true, "( %b ) => zs"),
    (X, ASN, true, "( %b , ) => zs"),
    (X, ASN, true, "( zp , %b ) => zs"),
    (X, ASN, true, "( %b , zp ) => { }"),
    (X, ASN, true, "( zp , %b , ) => zs"),
    (X, ASN, true, "( %b , zp , ) => zs"),
    (X, ASN, true, "( %b , ... zp ) => zs"),
    (X, ASN, true, "( zp , ... %b ) => zs"),
    (X, ASN, true, "( ... %b ) => zs"),
    (X, ASN, true, "( [ %b ] ) => zs"),
    (X, ASN, true, "( [ ... %b ] , zp ) => zs"),
    (X, ASN, true, "( zp = 1 , [ zo , %b ] = [ ] ) => zs"),
    (X, ASN, true, "( { zp : %b } ) => zs"),
    (X, ASN, true, "( { zp : %b , zo } , ) => zs"),
    (X, ASN, true, "( { $k : [ %b ] } ) => zs"),
    (X, ASN, true, "( { ... %b } ) => zs"),
    (X, ASN, true, "async _( %b ) => zs"),
    (X, ASN, true, "async _( %b , ) => zs"),
    (X, ASN, true, "async _( zp , %b ) => zs"),
    (X, ASN, true, "async _( %b , zp ) => { }"),
    (X, ASN, true, "async _( %b , ... zp ) => zs"),
    (X, ASN, true, "async _( ... %b ) => zs"),
    (X, ASN, true, "async _( [ %b ] ) => zs"),
    (X, ASN, true, "async _( zp , { zo : %b } ) => zs"),
    (X, ASN, true, "async _( { zo : [ %b ] } , ) => zs"),
    (X, PRI, true, "function ( %b ) { $F $i $< }"),
    (X, PRI, true, "function ( zp , %b , ) { }"),
    (X, PRI, true, "function * ( ... %b ) { }"),
    (X, PRI, true, "async _function ( [ %b ] ) { }"),
    (X, PRI, true, "{ $k ( %b ) { } }"),
    (X, PRI, true, "{ set zp ( %b ) { } }"),
    (X, PRI, true, "{ async _zp ( zo , { zn : %b } ) { } }"),
    (X, PRI, true, "class { $T $k ( zp , %b ) { } $< }"),
    (X, PRI, true, "class { $T static set $K ( [ %b ] ) { } $< }"),
    (I, 0, true, "function zp ( zo , %b ) { }"),
    (I, 0, true, "function zp ( { zo : %b } ) { }"),
    (S, 0, true, "var %b = $e ;"),
    (S, 0, true, "var [ %b ] = $e ;"),
    (S, 0, true, "var zp , [ zo , ... %b ] = $e ;"),
    (S, 0, true, "var { zp : %b } = $e ;"),
    (S, 0, true, "var { ... %b } = $e ;"),
    (I, 0, true, "let [ zp , %b ] = $e ;"),
    (I, 0, true, "const { zp , zo : [ %b ] } = $e ;"),
    (S, 0, true, "try { } catch ( %b ) { $B $i $< }"),
    (S, 0, true, "try { } catch ( [ %b ] ) { $B $i $< }"),
    (S, 0, true, "for ( var %b of $e ) $B $s $<"),
    (S, 0, true, "for ( var [ %b ] of $e ) $B $s $<"),
    (S, 0, true, "for ( const { zp : %b } of $e ) $B $s $<"),
    (S, 0, true, "for ( let [ %b ] in $E ) $B $s $<"),
];
