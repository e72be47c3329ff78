//! Strict mode rules, in strict code and in sloppy code (C16).
use crate::drive::*;
use crate::engine::{Case, Outcome};
use crate::errs::*;
use crate::gen::*;
use crate::meta::BAD;
use crate::plants::*;
use crate::tape::Tape;

pub const WORDS: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];
pub const NAMES: &[&str] = &["eval", "arguments"];

pub type T = (&'static str, Slot, u32, &'static str, &'static str);

/// an error in strict code only, and what is fine in both
pub const RULES: &[T] = &[
    ("with", S, 0, "with ( $E ) $B $s $<", "if ( $E ) $B $s $<"),
    ("with", S, 0, "with ( $E ) { $B $i $< }", "while ( $E ) { $B $i $< }"),
    ("with", S, 0, "zl : with ( $E ) $B $s $<", "zl : if ( $E ) $B $s $<"),
    ("with", S, 0, "if ( $E ) with ( $E ) ; else $s", "if ( $E ) while ( $E ) ; else $s"),
    ("with", X, PRI, "function ( ) { $F with ( $E ) ; $< }", "function ( ) { $F if ( $E ) ; $< }"),
    ("with", X, ASN, "( ) => { $R with ( $E ) ; $< }", "( ) => { $R if ( $E ) ; $< }"),
    ("with", X, PRI, "{ $k ( ) { $M with ( $E ) ; $< } }", "{ $k ( ) { $M if ( $E ) ; $< } }"),
    ("with", X, PRI, "{ get $k ( ) { $M with ( $E ) ; $< } }", "{ get $k ( ) { $M if ( $E ) ; $< } }"),
    ("with", X, PRI, "{ set $k ( zs ) { $M with ( $E ) ; $< } }", "{ set $k ( zs ) { $M if ( $E ) ; $< } }"),
    ("with", X, PRI, "async _function ( ) { $A with ( $E ) ; $< }", "async _function ( ) { $A if ( $E ) ; $< }"),
    ("with", X, PRI, "function * ( ) { $G with ( $E ) ; $< }", "function * ( ) { $G if ( $E ) ; $< }"),
    ("with", X, PRI, "function ( zs = function ( ) { $F with ( $E ) ; $< } ) { }", "function ( zs = function ( ) { $F if ( $E ) ; $< } ) { }"),
    ("delete of a name", X, UN, "delete zq", "delete zq . zr"),
    ("delete of a name", X, UN, "delete ( zq )", "delete ( zq . zr )"),
    ("delete of a name", X, UN, "delete ( ( zq ) )", "delete ( ( zq [ 0 ] ) )"),
    ("delete of a name", X, UN, "typeof delete zq", "typeof delete zq ( )"),
    ("delete of a name", X, SEQ_L, "$e , delete zq", "$e , delete zq . zr"),
    ("delete of a name", X, PRI, "[ delete zq , $e ]", "[ delete zq [ $e ] ]"),
    ("delete of a name", X, CND, "delete zq ? $e : $e", "delete zq . zr ? $e : $e"),
    ("delete of a name", S, 0, "if ( delete zq ) $B $s $<", "if ( delete zq . zr ) $B $s $<"),
    ("delete of a name", S, 0, "for ( ; delete zq ; ) $B $s $<", "for ( ; delete zq . zr ; ) $B $s $<"),
    ("function as the body of an if", S, 0, "if ( $E ) function zq ( ) { $F ; $i $< }", "if ( $E ) { function zq ( ) { $F ; $i $< } }"),
    ("function as the body of an if", S, 0, "if ( $E ) ; else function zq ( ) { $F ; $i $< }", "if ( $E ) ; else { function zq ( ) { $F ; $i $< } }"),
    ("labelled function", S, 0, "zl : function zq ( ) { $F ; $i $< }", "zl : { function zq ( ) { $F ; $i $< } }"),
];

/// the same for values given to eval and arguments
pub const GIVEN: &[T] = &[
    ("value given to eval or arguments", X, ASN, "%w = $e", "%w . zs = $e"),
    ("value given to eval or arguments", X, ASN, "( %w ) = $e", "( %w [ 0 ] ) = $e"),
    ("value given to eval or arguments", X, ASN, "%w += $e", "%w . zs += $e"),
    ("value given to eval or arguments", X, ASN, "%w **= $e", "%w . zs **= $e"),
    ("value given to eval or arguments", X, ASN, "zr = %w = $e", "zr = %w . zs = $e"),
    ("value given to eval or arguments", X, PRI, "[ $e , %w = $e ]", "[ $e , %w , zs = $e ]"),
    ("value given to eval or arguments", X, PRI, "{ $k : %w = $e }", "{ $k : %w , zs : $e }"),
    ("value given to eval or arguments", X, POST, "%w _++", "%w . zs _++"),
    ("value given to eval or arguments", X, POST, "%w _--", "%w ( 1 ) [ 0 ] _--"),
    ("value given to eval or arguments", X, UN, "++ %w", "++ %w . zs"),
    ("value given to eval or arguments", X, UN, "-- ( %w )", "-- ( %w . zs )"),
    ("value given to eval or arguments", X, UN, "! -- %w", "! %w ( 1 )"),
    ("value given to eval or arguments", X, ASN, "[ %w ] = $e", "[ %w . zs ] = $e"),
    ("value given to eval or arguments", X, ASN, "[ %w = $e ] = $e", "[ %w . zs = $e ] = $e"),
    ("value given to eval or arguments", X, ASN, "[ ... %w ] = $e", "[ ... %w . zs ] = $e"),
    ("value given to eval or arguments", X, ASN, "[ zs , [ %w ] ] = $e", "[ zs , [ %w [ 0 ] ] ] = $e"),
    ("value given to eval or arguments", X, ASN, "{ zs : %w } = $e", "{ zs : %w . zt } = $e"),
    ("value given to eval or arguments", X, ASN, "{ zs : %w = $e } = $e", "{ zs : %w . zt = $e } = $e"),
    ("value given to eval or arguments", X, ASN, "{ zs : { zt : [ %w ] } } = $e", "{ zs : { zt : [ %w . zu ] } } = $e"),
    ("value given to eval or arguments", S, 0, "for ( %w of $e ) $B $s $<", "for ( %w . zs of $e ) $B $s $<"),
    ("value given to eval or arguments", S, 0, "for ( %w in $E ) $B $s $<", "for ( %w [ 0 ] in $E ) $B $s $<"),
    ("value given to eval or arguments", S, 0, "for ( [ %w ] of $e ) $B $s $<", "for ( [ %w . zs ] of $e ) $B $s $<"),
    ("value given to eval or arguments", S, 0, "for ( { zs : %w } in $E ) $B $s $<", "for ( { zs : %w . zt } in $E ) $B $s $<"),
    ("value given to eval or arguments", S, 0, "for ( %w = 0 ; ; ) $B $s $<", "for ( %w . zs = 0 ; ; ) $B $s $<"),
];

/// the same for strict reserved words as references
pub const REFS: &[T] = &[
    ("strict reserved word", X, PRI, "( %w )", "( zq . %w )"),
    ("strict reserved word", X, PRI, "( %w . zs )", "( zq . %w )"),
    ("strict reserved word", X, PRI, "( %w ( $e ) )", "( zq . %w ( $e ) )"),
    ("strict reserved word", X, PRI, "[ %w ]", "[ zq ]"),
    ("strict reserved word", X, PRI, "{ %w }", "{ %w : zq }"),
    ("strict reserved word", X, PRI, "{ %w , zq }", "{ %w ( ) { } , zq }"),
    ("strict reserved word", X, PRI, "{ $k : %w }", "{ $k : zq }"),
    ("strict reserved word", X, ASN, "zr = %w", "zr = zq . %w"),
    ("strict reserved word", X, ASN, "zr ? %w : $e", "zr ? zq : $e"),
    ("strict reserved word", X, ASN, "[ %w ] = $e", "[ zq . %w ] = $e"),
    ("strict reserved word", X, ASN, "{ zs : %w } = $e", "{ %w : zs } = $e"),
    ("strict reserved word", X, CND, "zr + %w", "zr + zq"),
    ("strict reserved word", X, UN, "- %w", "- zq . %w"),
    ("strict reserved word", X, UN, "++ %w", "++ zq . %w"),
    ("strict reserved word", X, CAL, "zr ( $e , %w )", "zr ( $e , zq )"),
    ("strict reserved word", X, CAL, "zr [ %w ]", "zr [ zq ]"),
    ("strict reserved word", X, CAL, "new zr ( ... %w )", "new zr ( ... zq )"),
    ("strict reserved word", S, 0, "%w : while ( $E ) break _%w ;", "zl : while ( $E ) break _zl ;"),
    ("strict reserved word", S, 0, "for ( zr of %w ) $B $s $<", "for ( zr of zq ) $B $s $<"),
    ("strict reserved word", S, 0, "while ( %w ) $B $s $<", "while ( zq ) $B $s $<"),
    ("strict reserved word", S, 0, "throw _%w ;", "throw _zq ;"),
    ("strict reserved word", S, 0, "switch ( $E ) { case %w : }", "switch ( $E ) { case zq : }"),
];

/// a directive that makes what comes before it an error; the twin has no directive
pub const RETRO: &[(&str, Slot, u32, &str)] = &[
    ("eval", I, 0, "function %w ( ) { D }"),
    ("eval", I, 0, "function zf ( %w ) { D }"),
    ("eval", I, 0, "function zf ( zs , %w ) { D }"),
    ("eval", I, 0, "function * zf ( %w ) { D }"),
    ("eval", I, 0, "function * %w ( ) { D }"),
    ("eval", I, 0, "async _function zf ( %w ) { D }"),
    ("eval", I, 0, "async _function %w ( ) { D }"),
    ("eval", X, PRI, "function %w ( ) { D }"),
    ("eval", X, PRI, "function ( %w ) { D }"),
    ("eval", X, PRI, "function ( zs , %w , zt ) { D }"),
    ("eval", X, PRI, "function * ( %w ) { D }"),
    ("eval", X, PRI, "async _function ( %w ) { D }"),
    ("eval", X, PRI, "async _function %w ( ) { D }"),
    ("eval", X, ASN, "%w => { D }"),
    ("eval", X, ASN, "( %w ) => { D }"),
    ("eval", X, ASN, "( zs , %w ) => { D }"),
    ("eval", X, ASN, "async _%w => { D }"),
    ("eval", X, ASN, "async _( %w ) => { D }"),
    ("eval", X, ASN, "async _( zs , %w ) => { D }"),
    ("eval", X, PRI, "{ $k ( %w ) { D } }"),
    ("eval", X, PRI, "{ set $k ( %w ) { D } }"),
    ("eval", X, PRI, "{ * $k ( %w ) { D } }"),
    ("eval", X, PRI, "{ async _$k ( %w ) { D } }"),
    ("params", I, 0, "function zf ( zs = 1 ) { D }"),
    ("params", I, 0, "function zf ( zt , [ zs ] ) { D }"),
    ("params", I, 0, "function zf ( { zs } ) { D }"),
    ("params", I, 0, "function zf ( ... zs ) { D }"),
    ("params", I, 0, "function zf ( zt , ... zs ) { D }"),
    ("params", I, 0, "function * zf ( zs = 1 , zt ) { D }"),
    ("params", I, 0, "async _function zf ( zs = 1 ) { D }"),
    ("params", X, PRI, "function ( zs = 1 ) { D }"),
    ("params", X, PRI, "function * ( ... zs ) { D }"),
    ("params", X, PRI, "async _function ( [ zs ] , zt ) { D }"),
    ("params", X, ASN, "( zs = 1 ) => { D }"),
    ("params", X, ASN, "( [ zs ] ) => { D }"),
    ("params", X, ASN, "( zt , { zs } ) => { D }"),
    ("params", X, ASN, "( ... zs ) => { D }"),
    ("params", X, ASN, "async _( zs = 1 ) => { D }"),
    ("params", X, ASN, "async _( zt , [ zs ] ) => { D }"),
    ("params", X, PRI, "{ $k ( zs = 1 ) { D } }"),
    ("params", X, PRI, "{ $k ( zt , ... zs ) { D } }"),
    ("params", X, PRI, "{ * $k ( [ zs ] ) { D } }"),
    ("params", X, PRI, "{ set $k ( zs = 1 ) { D } }"),
    ("params", X, PRI, "{ set $k ( { zs } ) { D } }"),
    ("params", X, PRI, "class { $T $k ( zs = 1 ) { D } $< }"),
    ("params", X, PRI, "class { $T constructor ( ... zs ) { D } $< }"),
    ("params", X, PRI, "class { $T static _$k ( [ zs ] ) { D } $< }"),
    ("params", X, PRI, "class { $T set $k ( { zs } ) { D } $< }"),
    ("params", X, PRI, "class { $T * $k ( zs = 1 ) { D } $< }"),
];

/// what a directive looks like, and what only looks like one
pub const DIRS: &[&str] = &["'use~strict' ;", "\"use~strict\" ;", "'zd' ; 'use~strict' ;", "'use~strict' ; 'zd' ;", "'' ; \"zd\" ; \"use~strict\" ; zs ;"];
const NONDIRS: &[&str] = &[
    "( 'use~strict' ) ;", "'use~~strict' ;", "'use\\x20strict' ;", "'use~strict~' ;", "; 'use~strict' ;", "zs ; 'use~strict' ;",
    "'use~strict' + zs ;", "'use~strict' , zs ;", "'use~strict' . zs ;", "'use~strict' [ 0 ] ;", "'use~strict' ( ) ;", "'use~strict' ? 0 : 1 ;",
    "{ 'use~strict' ; }", "if ( zs ) 'use~strict' ;", "var zs ; 'use~strict' ;", "`use~strict` ;", "'Use~strict' ;", "'zd' ; ( 'use~strict' ) ;",
    "'use\\u0020strict' ;", "'use~strict' in zs ;", "'use~strict' == zs ;", "'use~strict' `zs` ;", "! 'use~strict' ;", "zl : 'use~strict' ;",
    "function zf ( ) { 'use~strict' ; }", "void function ( ) { 'use~strict' ; } ;", "zs ( ( ) => { 'use~strict' ; } ) ;", "void { zs ( ) { 'use~strict' ; } } ;",
    "class zf { }", "class zf extends Object { zs ( ) { 'use~strict' ; } }", "void class { } ;", "void class extends Object { } ;",
    "async _function zf ( ) { 'use~strict' ; }", "function * zf ( ) { 'use~strict' ; }", "void { get zs ( ) { 'use~strict' ; } } ;",
    "void { set zs ( zt ) { 'use~strict' ; } } ;", "void ( async _( ) => { 'use~strict' ; } ) ;", "void { async _zs ( ) { 'use~strict' ; } } ;",
    "var zs = class { [ zt ] ( ) { } } ;", "zs = function ( ) { 'use~strict' ; return _zt ; } ;", "void { zs : class { } } ;", "zs ( class extends zt { } ) ;",
    "try { 'use~strict' ; } finally { }", "for ( ; 'use~strict' ; ) { 'use~strict' ; }", "switch ( 'use~strict' ) { default : 'use~strict' ; }",
];
/// a function around a place where directives can be
const AROUND: &[(Slot, u32, &str)] = &[
    (I, 0, "function zg ( ) { B }"),
    (I, 0, "function * zg ( ) { B }"),
    (I, 0, "async _function zg ( ) { B }"),
    (X, PRI, "function ( ) { B }"),
    (X, PRI, "function * ( ) { B }"),
    (X, PRI, "async _function ( ) { B }"),
    (X, ASN, "( ) => { B }"),
    (X, ASN, "zz => { B }"),
    (X, ASN, "async _( ) => { B }"),
    (X, ASN, "async _zz => { B }"),
    (X, PRI, "{ $k ( ) { B } }"),
    (X, PRI, "{ get $k ( ) { B } }"),
    (X, PRI, "{ set $k ( zz ) { B } }"),
    (X, PRI, "{ * $k ( ) { B } }"),
    (X, PRI, "{ async _$k ( ) { B } }"),
    (X, CAL, "function ( ) { B } ( )"),
];
/// something that is an error in strict code only, as statements
const TELL: &[(&str, &str)] = &[
    ("with ( zs ) ;", "if ( zs ) ;"),
    ("delete zs ;", "delete zs . zt ;"),
    ("eval = 1 ;", "eval . zs = 1 ;"),
    ("var static ;", "var zstatic ;"),
    ("( package ) ;", "( zs . package ) ;"),
    ("function arguments ( ) { }", "function zf ( ) { }"),
    ("void ( ( eval ) => 1 ) ;", "void ( ( zs ) => 1 ) ;"),
    ("if ( zs ) { { with ( zs ) ; } }", "if ( zs ) { { if ( zs ) ; } }"),
    ("void function ( ) { with ( zs ) ; } ;", "void function ( ) { } ;"),
    ("void { zs ( public ) { } } ;", "void { public ( zs ) { } } ;"),
    ("var zs = ( ) => { with ( zs ) ; } ;", "var zs = ( ) => { if ( zs ) ; } ;"),
];

pub fn sprofile() -> Profile {
    let mut p = Profile::base();
    p.fuel = (3, 30);
    p.items = (1, 3);
    p.dirs = 5;
    p.ctxt = 0;
    p.modules = 0;
    p.up_e(&[FUNC, CLASS, ARROW, OBJECT], 2)
}

/// text that must be accepted where it stands
fn accepted(t: &mut Tape, p: &Profile, row: &Row) -> Outcome {
    let mut g = G::new(t, p.clone(), Cx::script());
    g.plant = Some(pair(row.slot, row.lvl, row.cond, row.bad.clone(), 3));
    let (prog, at) = g.program_plant();
    if at.is_none() {
        return Outcome::Discard("no place for the plant");
    }
    let style = if t.below(2) == 0 { crate::tok::Style::Plain } else { crate::tok::Style::Compact };
    let r = match render_style(&prog.toks, style) {
        Some(r) => r,
        None => return Outcome::Discard(BAD),
    };
    t.feat("sloppy code, must be accepted");
    t.feat(row.group);
    let fail = match parse(&r.src, false) {
        Out::Ok(_) => None,
        o => Some(format!("{}: {:?} in sloppy code is not accepted: {}", row.group, row.bad, o.short())),
    };
    Outcome::Done(Case { input: r.src, nontrivial: true, fail, checks: 1 })
}

fn row(t: &mut Tape, sloppy_ok: bool) -> Row {
    let from = |r: &T, w: &str| Row { group: r.0, slot: r.1, lvl: r.2, cond: any, bad: r.3.replace("%w", w), good: r.4.replace("%w", w) };
    match t.below(8) {
        0 | 1 => from(t.pick(RULES), ""),
        2 => {
            let w = *t.pick(NAMES);
            from(t.pick(GIVEN), w)
        }
        3 | 4 => {
            let w = *t.pick(WORDS);
            from(t.pick(REFS), w)
        }
        k => {
            let (w, group) = if k == 5 { (*t.pick(NAMES), "binding eval or arguments") } else { (*t.pick(WORDS), "binding a strict reserved word") };
            let ok: Vec<_> = BINDS
                .iter()
                .filter(|b| {
                    let label = b.3.starts_with("%w :") || b.3 == "{ $o , %w }";
                    let class = b.3.starts_with("class") || b.3.contains("class %w");
                    let lex = b.3.contains("let ") || b.3.contains("const ");
                    !(NAMES.contains(&w) && label) && !(sloppy_ok && (class || b.2 as usize == module_top as usize || lex && w == "let"))
                })
                .collect();
            let b = *t.pick(&ok);
            Row { group, slot: b.0, lvl: b.1, cond: b.2, bad: b.3.replace("%w", w), good: b.3.replace("%w", "zq") }
        }
    }
}

pub fn c16(t: &mut Tape) -> Outcome {
    let mut p = sprofile();
    let den = *t.pick(&[1u32, 3, 8, 24]);
    match t.below(16) {
        // strict code
        0..=5 => {
            let mut r = row(t, false);
            let top = r.cond as usize == module_top as usize;
            let module = top || t.below(4) == 3;
            p.dirs = 10;
            if !top {
                r.cond = strict_no_yield;
            }
            t.feat("strict code, must be rejected");
            bad_good(t, &p, module, &r, den)
        }
        // sloppy code
        6..=10 => {
            let mut r = row(t, true);
            r.cond = sloppy_no_yield;
            p.dirs = 3;
            accepted(t, &p, &r)
        }
        // a directive that is in time for what comes before it
        11 | 12 => {
            let x = t.pick(RETRO);
            let d = DIRS[t.below(4) as usize];
            let w = if t.below(2) == 0 { *t.pick(NAMES) } else { *t.pick(WORDS) };
            let w = if x.3.starts_with("function *") && w == "yield" || w == "yield" && x.3.contains('*') { "static" } else { w };
            let cond: fn(&Cx) -> bool = if x.0 == "params" { any } else { sloppy_no_yield };
            let bad = x.3.replace("%w", w).replace('D', d);
            let good = x.3.replace("%w", w).replace('D', "( 'use~strict' ) ;");
            let group = if x.0 == "params" { "directive with parameters that are not simple" } else { "directive after the name or parameter" };
            let module = x.0 == "params" && t.below(4) == 3;
            bad_good(t, &p, module, &Row { group, slot: x.1, lvl: x.2, cond, bad, good }, den)
        }
        // a directive, and its effect on what comes after it
        13 => {
            let a = t.pick(AROUND);
            let (bad, good) = t.pick(TELL);
            let d = *t.pick(DIRS);
            let mk = |s: &str| a.2.replace('B', &format!("{} {}", d, s));
            bad_good(t, &p, false, &Row { group: "directive in a function", slot: a.0, lvl: a.1, cond: any, bad: mk(bad), good: mk(good) }, den)
        }
        // no directive
        _ => {
            let d = *t.pick(NONDIRS);
            let s = t.pick(TELL).0;
            if t.below(3) == 0 {
                // a string at the start of a block is no directive either
                let body = format!("{{ {} {} }}", d, s);
                accepted(t, &p, &Row { group: "no directive", slot: S, lvl: 0, cond: sloppy_no_yield, bad: body, good: String::new() })
            } else {
                let a = t.pick(AROUND);
                let bad = a.2.replace('B', &format!("{} {}", d, s));
                accepted(t, &p, &Row { group: "no directive", slot: a.0, lvl: a.1, cond: sloppy_no_yield, bad, good: String::new() })
            }
        }
    }
}
