//! Constructs that lack a token they need, with the complete construct (C17).
use crate::gen::*;
use crate::plants::*;

type R = (&'static str, Slot, u32, fn(&Cx) -> bool, &'static str, &'static str);

pub const MISSING: &[R] = &[
    // heads
    ("head", S, 0, any, "if ( ) $B $s $<", "if ( 1 ) $B $s $<"),
    ("head", S, 0, any, "while ( ) $B $s $<", "while ( 1 ) $B $s $<"),
    ("head", S, 0, sloppy, "with ( ) $B $s $<", "with ( 1 ) $B $s $<"),
    ("head", S, 0, any, "switch ( ) { }", "switch ( 1 ) { }"),
    ("head", S, 0, any, "switch { }", "switch ( 1 ) { }"),
    ("head", S, 0, any, "do ; while ( ) ;", "do ; while ( 1 ) ;"),
    ("head", S, 0, any, "do ; while 1 ;", "do ; while ( 1 ) ;"),
    ("head", S, 0, any, "if zq { }", "if ( zq ) { }"),
    ("head", S, 0, any, "while zq { }", "while ( zq ) { }"),
    ("head", S, 0, any, "for zq of zr { }", "for ( zq of zr ) { }"),
    ("head", S, 0, any, "for ; ; { }", "for ( ; ; ) { }"),
    ("head", S, 0, any, "for ( zq ; ) $B $s $<", "for ( zq ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( zq ; zr ) $B $s $<", "for ( zq ; zr ; ) $B $s $<"),
    ("head", S, 0, any, "for ( ; ; ; ) $B $s $<", "for ( ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( zq ) $B $s $<", "for ( zq ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( ) $B $s $<", "for ( ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( zq of ) $B $s $<", "for ( zq of zr ) $B $s $<"),
    ("head", S, 0, any, "for ( zq in ) $B $s $<", "for ( zq in zr ) $B $s $<"),
    ("head", S, 0, any, "for ( of zr ) $B $s $<", "for ( zq of zr ) $B $s $<"),
    ("head", S, 0, any, "for ( in zr ) $B $s $<", "for ( zq in zr ) $B $s $<"),
    ("head", S, 0, any, "for ( var in zr ) $B $s $<", "for ( var zq in zr ) $B $s $<"),
    ("head", S, 0, any, "for ( var of zr ) $B $s $<", "for ( var zq of zr ) $B $s $<"),
    ("head", S, 0, any, "for ( const of zr ) $B $s $<", "for ( const zq of zr ) $B $s $<"),
    ("head", S, 0, any, "for ( const ; ; ) $B $s $<", "for ( const zq = 1 ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( var ; ; ) $B $s $<", "for ( var zq ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( var zq = ; ; ) $B $s $<", "for ( var zq = 1 ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( var zq zr ; ; ) $B $s $<", "for ( var zq , zr ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( let zq , ; ; ) $B $s $<", "for ( let zq , zr ; ; ) $B $s $<"),
    ("head", S, 0, any, "for ( let [ zq of zr ) $B $s $<", "for ( let [ zq ] of zr ) $B $s $<"),
    ("head", S, 0, any, "for ( var zq zr of zs ) $B $s $<", "for ( var zq of zs ) $B $s $<"),
    ("head", S, 0, any, "for ( zq zr of zs ) $B $s $<", "for ( zq of zs ) $B $s $<"),
    ("head", S, 0, any, "for ( zq of zr , zs ) $B $s $<", "for ( zq in zr , zs ) $B $s $<"),
    ("head", S, 0, any, "for ( zq of zr ; ) $B $s $<", "for ( zq of zr ) $B $s $<"),
    ("head", S, 0, any, "for ( zq in zr ; ; ) $B $s $<", "for ( ; zq in zr ; ) $B $s $<"),
    // bodies
    ("body", S, 0, any, "{ if ( $E ) }", "{ if ( $E ) ; }"),
    ("body", S, 0, any, "{ if ( $E ) ; else }", "{ if ( $E ) ; else ; }"),
    ("body", S, 0, any, "if ( $E ) else $s", "if ( $E ) ; else $s"),
    ("body", S, 0, any, "{ while ( $E ) }", "{ while ( $E ) ; }"),
    ("body", S, 0, any, "{ for ( ; ; ) }", "{ for ( ; ; ) ; }"),
    ("body", S, 0, any, "{ for ( zq of zr ) }", "{ for ( zq of zr ) { } }"),
    ("body", S, 0, any, "{ for ( var zq in zr ) }", "{ for ( var zq in zr ) { } }"),
    ("body", S, 0, any, "{ do while ( $E ) }", "{ do ; while ( $E ) }"),
    ("body", S, 0, any, "{ do }", "{ do ; while ( 1 ) }"),
    ("body", S, 0, any, "{ do ; }", "{ do ; while ( 1 ) ; }"),
    ("body", S, 0, any, "do ; ( zq ) ;", "do ; while ( zq ) ;"),
    ("body", S, 0, any, "do { } zq ;", "do { } while ( zq ) ;"),
    ("body", S, 0, any, "{ zl : }", "{ zl : ; }"),
    ("body", S, 0, sloppy, "{ with ( $E ) }", "{ with ( $E ) ; }"),
    ("body", S, 0, any, "switch ( 1 ) ;", "switch ( 1 ) { }"),
    ("body", S, 0, any, "{ try { } zq ( ) ; }", "{ try { } finally { } zq ( ) ; }"),
    ("body", S, 0, any, "{ try { } }", "{ try { } catch { } }"),
    ("body", S, 0, any, "try { } catch ( ) { }", "try { } catch ( zq ) { }"),
    ("body", S, 0, any, "try { } catch zq { }", "try { } catch ( zq ) { }"),
    ("body", S, 0, any, "try { } catch ( zq , zr ) { }", "try { } catch ( [ zq , zr ] ) { }"),
    ("body", S, 0, any, "try { } catch ( zq ) ;", "try { } catch ( zq ) { }"),
    ("body", S, 0, any, "try ; catch ( zq ) { }", "try { } catch ( zq ) { }"),
    ("body", S, 0, any, "try { } finally ;", "try { } finally { }"),
    ("body", S, 0, any, "try { } finally { } catch ( zq ) { }", "try { } catch ( zq ) { } finally { }"),
    // pieces without their statement
    ("stray piece", S, 0, any, "{ catch ( zq ) { } }", "{ zc ( zq ) ; { } }"),
    ("stray piece", S, 0, any, "{ finally { } }", "{ { } }"),
    ("stray piece", S, 0, any, "{ else ; }", "{ ; }"),
    ("stray piece", S, 0, any, "{ case 1 : }", "{ zq : ; }"),
    ("stray piece", S, 0, any, "{ default : ; }", "{ zq : ; }"),
    ("stray piece", S, 0, any, "{ extends zq ; }", "{ zq ; }"),
    ("stray piece", S, 0, any, "{ in zq ; }", "{ zq ; }"),
    ("stray piece", S, 0, any, "{ instanceof zq ; }", "{ zq ; }"),
    ("stray piece", S, 0, any, "{ , }", "{ }"),
    ("stray piece", S, 0, any, "{ : }", "{ }"),
    ("stray piece", S, 0, any, "{ zq ; => zr }", "{ zq => zr }"),
    ("stray piece", S, 0, any, "{ = zq ; }", "{ zr = zq ; }"),
    ("stray piece", S, 0, any, "{ . zq ; }", "{ zr . zq ; }"),
    ("stray piece", S, 0, any, "{ * zq ; }", "{ zr * zq ; }"),
    ("stray piece", S, 0, any, "{ ... zq ; }", "{ [ ... zq ] ; }"),
    // switch
    ("case", S, 0, any, "switch ( $E ) { case : }", "switch ( $E ) { case 1 : }"),
    ("case", S, 0, any, "switch ( $E ) { case 1 }", "switch ( $E ) { case 1 : }"),
    ("case", S, 0, any, "switch ( $E ) { case 1 ; }", "switch ( $E ) { case 1 : ; }"),
    ("case", S, 0, any, "switch ( $E ) { default }", "switch ( $E ) { default : }"),
    ("case", S, 0, any, "switch ( $E ) { default 1 : }", "switch ( $E ) { default : 1 }"),
    ("case", S, 0, any, "switch ( $E ) { zq ( ) ; }", "switch ( $E ) { default : zq ( ) ; }"),
    ("case", S, 0, any, "switch ( $E ) { ; case 1 : }", "switch ( $E ) { case 1 : ; }"),
    ("case", S, 0, any, "switch ( $E ) { case 1 , : }", "switch ( $E ) { case 1 , 2 : }"),
    // declarations
    ("declaration", S, 0, any, "var ;", "var zq ;"),
    ("declaration", S, 0, any, "var zq = ;", "var zq = 1 ;"),
    ("declaration", S, 0, any, "var zq , ;", "var zq , zr ;"),
    ("declaration", S, 0, any, "var , zq ;", "var zr , zq ;"),
    ("declaration", S, 0, any, "var = 1 ;", "var zq = 1 ;"),
    ("declaration", S, 0, any, "var zq zr ;", "var zq , zr ;"),
    ("declaration", S, 0, any, "var zq : 1 ;", "var zq = 1 ;"),
    ("declaration", S, 0, any, "var zq + 1 ;", "var zq = + 1 ;"),
    ("declaration", S, 0, any, "var zq . zr = 1 ;", "var zq = zr = 1 ;"),
    ("declaration", S, 0, any, "var zq += 1 ;", "var zq = 1 ;"),
    ("declaration", S, 0, any, "var ( zq ) ;", "var [ zq ] = 1 ;"),
    ("declaration", S, 0, any, "var 1 ;", "var zq = 1 ;"),
    ("declaration", S, 0, any, "var 'zq' ;", "var zq = 'zq' ;"),
    ("declaration", S, 0, any, "var [ zq zr ] = 1 ;", "var [ zq , zr ] = 1 ;"),
    ("declaration", S, 0, any, "var [ zq = ] = 1 ;", "var [ zq = 1 ] = 1 ;"),
    ("declaration", S, 0, any, "var [ ... ] = 1 ;", "var [ ... zq ] = 1 ;"),
    ("declaration", S, 0, any, "var [ zq . zr ] = 1 ;", "var [ zq = zr ] = 1 ;"),
    ("declaration", S, 0, any, "var { zq : } = 1 ;", "var { zq : zr } = 1 ;"),
    ("declaration", S, 0, any, "var { zq = } = 1 ;", "var { zq = 1 } = 1 ;"),
    ("declaration", S, 0, any, "var { : zq } = 1 ;", "var { zr : zq } = 1 ;"),
    ("declaration", S, 0, any, "var { zq zr } = 1 ;", "var { zq , zr } = 1 ;"),
    ("declaration", S, 0, any, "var { , } = 1 ;", "var { } = 1 ;"),
    ("declaration", S, 0, any, "var { zq , , zr } = 1 ;", "var { zq , zr } = 1 ;"),
    ("declaration", S, 0, any, "var { zq ( ) { } } = 1 ;", "var { zq : zr } = 1 ;"),
    ("declaration", S, 0, any, "var { [ zq ] } = 1 ;", "var { [ zq ] : zr } = 1 ;"),
    ("declaration", S, 0, any, "var { 'zq' } = 1 ;", "var { 'zq' : zr } = 1 ;"),
    ("declaration", S, 0, any, "var { 1 } = 1 ;", "var { 1 : zr } = 1 ;"),
    ("declaration", S, 0, any, "var { if } = 1 ;", "var { if : zr } = 1 ;"),
    ("declaration", S, 0, any, "var { zq : if } = 1 ;", "var { if : zq } = 1 ;"),
    ("declaration", S, 0, any, "var { ... } = 1 ;", "var { ... zq } = 1 ;"),
    ("declaration", I, 0, any, "let zq = ;", "let zq = 1 ;"),
    ("declaration", I, 0, any, "let zq , ;", "let zq , zr ;"),
    ("declaration", I, 0, any, "const ;", "const zq = 1 ;"),
    ("declaration", I, 0, any, "const zq = ;", "const zq = 1 ;"),
    ("declaration", I, 0, any, "const zq = 1 , ;", "const zq = 1 , zr = 1 ;"),
    ("declaration", I, 0, any, "const zq = 1 zr = 1 ;", "const zq = 1 , zr = 1 ;"),
    ("declaration", S, 0, any, "throw ;", "throw _1 ;"),
    // functions
    ("function", I, 0, any, "function zq { }", "function zq ( ) { }"),
    ("function", I, 0, any, "{ function zq ( ) }", "{ function zq ( ) { } }"),
    ("function", I, 0, any, "function zq ( ) ;", "function zq ( ) { }"),
    ("function", I, 0, any, "function zq ( ) zr ;", "function zq ( ) { zr ; }"),
    ("function", I, 0, any, "function zq ( ) => { }", "function zq ( ) { }"),
    ("function", I, 0, any, "function zq zr ( ) { }", "function zq ( zr ) { }"),
    ("function", I, 0, any, "function zq . zr ( ) { }", "function zq ( zr ) { }"),
    ("function", I, 0, any, "function zq ( zr zs ) { }", "function zq ( zr , zs ) { }"),
    ("function", I, 0, any, "function zq ( , zr ) { }", "function zq ( zs , zr ) { }"),
    ("function", I, 0, any, "function zq ( zr , , zs ) { }", "function zq ( zr , zs ) { }"),
    ("function", I, 0, any, "function zq ( , ) { }", "function zq ( ) { }"),
    ("function", I, 0, any, "function zq ( zr = ) { }", "function zq ( zr = 1 ) { }"),
    ("function", I, 0, any, "function zq ( ... ) { }", "function zq ( ... zr ) { }"),
    ("function", I, 0, any, "function zq ( zr . zs ) { }", "function zq ( zr , zs ) { }"),
    ("function", I, 0, any, "function zq ( 1 ) { }", "function zq ( zr = 1 ) { }"),
    ("function", I, 0, any, "function zq ( this ) { }", "function zq ( zr ) { }"),
    ("function", I, 0, any, "function zq ( ( zr ) ) { }", "function zq ( [ zr ] ) { }"),
    ("function", I, 0, any, "function zq ( zr ( ) ) { }", "function zq ( zr ) { }"),
    ("function", I, 0, any, "function * zq { }", "function * zq ( ) { }"),
    ("function", I, 0, any, "async _function zq ( ) ;", "async _function zq ( ) { }"),
    ("function", X, PRI, any, "function { }", "function ( ) { }"),
    ("function", X, PRI, any, "( function ( ) )", "( function ( ) { } )"),
    ("function", X, PRI, any, "( function zq ( ) ; )", "( function zq ( ) { } )"),
    ("function", X, PRI, any, "( function 1 ( ) { } )", "( function zq ( ) { } )"),
    ("function", X, PRI, any, "( function if ( ) { } )", "( function zq ( ) { } )"),
    ("function", X, PRI, any, "( function ( zq zr ) { } )", "( function ( zq , zr ) { } )"),
    ("function", X, PRI, any, "( function ( ... ) { } )", "( function ( ... zq ) { } )"),
    ("function", X, PRI, any, "( async _function ( ) )", "( async _function ( ) { } )"),
    ("function", X, PRI, any, "( async _function * )", "( async _function ( ) { } )"),
    ("function", X, PRI, any, "( function * )", "( function * ( ) { } )"),
    ("function", X, PRI, any, "function * ( ) { yield * ; }", "function * ( ) { yield _* zq ; }"),
    ("function", X, PRI, any, "async _function ( ) { await ; }", "async _function ( ) { await zq ; }"),
    ("arrow", X, PRI, any, "( ( ) )", "( ( ) => 1 )"),
    ("arrow", X, PRI, any, "( ( ) => )", "( ( ) => 1 )"),
    ("arrow", X, PRI, any, "( => zq )", "( zq => zq )"),
    ("arrow", X, PRI, any, "( zq => )", "( zq => zq )"),
    ("arrow", X, PRI, any, "( ( ) zq )", "( ( ) => zq )"),
    ("arrow", X, PRI, any, "( zq , => 1 )", "( zq , zr => 1 )"),
    ("arrow", X, PRI, any, "( async _( ) => )", "( async _( ) => 1 )"),
    ("arrow", X, PRI, any, "( async _zq => )", "( async _zq => 1 )"),
    ("arrow", X, PRI, any, "( async _zq )", "( async _( zq ) )"),
    ("arrow", X, PRI, any, "( async _zq zr )", "( async _zq => zr )"),
    ("arrow", X, PRI, any, "( ( ... ) => 1 )", "( ( ... zq ) => 1 )"),
    ("arrow", X, PRI, any, "( ( zq , , zr ) => 1 )", "( ( zq , zr ) => 1 )"),
    ("arrow", X, PRI, any, "( ( , zq ) => 1 )", "( ( zr , zq ) => 1 )"),
    ("arrow", X, PRI, any, "( ( zq zr ) => 1 )", "( ( zq , zr ) => 1 )"),
    ("arrow", X, PRI, any, "( ( zq = ) => 1 )", "( ( zq = 1 ) => 1 )"),
    ("arrow", X, PRI, any, "( ( ... zq ) )", "( ( ... zq ) => 1 )"),
    ("arrow", X, PRI, any, "( zq => { )", "( zq => { } )"),
    ("arrow", X, PRI, any, "( zq => zr => )", "( zq => zr => 1 )"),
    ("arrow", X, PRI, any, "( zq _=> { } + 1 )", "( zq _=> { } , + 1 )"),
    ("arrow", X, PRI, any, "( zq _=> { } ( ) )", "( ( zq _=> { } ) ( ) )"),
    ("arrow", X, PRI, any, "( zq _=> { } . zr )", "( ( zq _=> { } ) . zr )"),
    ("arrow", X, PRI, any, "( zq _=> { } ? 1 : 2 )", "( ( zq _=> { } ) ? 1 : 2 )"),
    ("arrow", X, PRI, any, "( zr || zq => 1 )", "( zr || ( zq => 1 ) )"),
    ("arrow", X, PRI, any, "( ! zq => 1 )", "( ! ( zq => 1 ) )"),
    ("arrow", X, PRI, any, "( zr . zq => 1 )", "( zr , zq => 1 )"),
    ("class", I, 0, any, "class zq extends { } ;", "class zq extends zr { } ;"),
    ("class", I, 0, any, "class zq ;", "class zq { }"),
    ("class", I, 0, any, "class zq ( ) { }", "class zq { }"),
    ("class", I, 0, any, "class zq zr { }", "class zq extends zr { }"),
    ("class", I, 0, any, "class zq extends zr zs { }", "class zq extends zr { }"),
    ("class", I, 0, any, "class zq extends zr , zs { }", "class zq extends ( zr , zs ) { }"),
    ("class", I, 0, any, "class zq extends zr + zs { }", "class zq extends ( zr + zs ) { }"),
    ("class", I, 0, any, "class zq extends zr => zs { }", "class zq extends ( zr => zs ) { }"),
    ("class", I, 0, any, "class zq { zr }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { zr = 1 }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { zr : 1 }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { zr ( ) }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { zr ( ) ; }", "class zq { zr ( ) { } ; }"),
    ("class", I, 0, any, "class zq { zr { } }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { get zr }", "class zq { get zr ( ) { } }"),
    ("class", I, 0, any, "class zq { get zr { } }", "class zq { get zr ( ) { } }"),
    ("class", I, 0, any, "class zq { get zr zs ( ) { } }", "class zq { get zr ( ) { } }"),
    ("class", I, 0, any, "class zq { static }", "class zq { static ( ) { } }"),
    ("class", I, 0, any, "class zq { static zr }", "class zq { static zr ( ) { } }"),
    ("class", I, 0, any, "class zq { ( ) { } }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { * ( ) { } }", "class zq { * zr ( ) { } }"),
    ("class", I, 0, any, "class zq { * zr }", "class zq { * zr ( ) { } }"),
    ("class", I, 0, any, "class zq { get * zr ( ) { } }", "class zq { get zr ( ) { } }"),
    ("class", I, 0, any, "class zq { [ ] ( ) { } }", "class zq { [ zr ] ( ) { } }"),
    ("class", I, 0, any, "class zq { [ zr ] }", "class zq { [ zr ] ( ) { } }"),
    ("class", I, 0, any, "class zq { zr ( ) { } , zs ( ) { } }", "class zq { zr ( ) { } ; zs ( ) { } }"),
    ("class", I, 0, any, "class zq { , }", "class zq { ; }"),
    ("class", I, 0, any, "class zq { zr . zs ( ) { } }", "class zq { zr ( ) { } zs ( ) { } }"),
    ("class", I, 0, any, "class zq { zr zs ( ) { } }", "class zq { zr ( ) { } zs ( ) { } }"),
    ("class", I, 0, any, "class zq { var zr }", "class zq { var ( ) { } }"),
    ("class", I, 0, any, "class zq { function zr ( ) { } }", "class zq { function ( ) { } }"),
    ("class", I, 0, any, "class zq { ... zr }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { zr ( ) => { } }", "class zq { zr ( ) { } }"),
    ("class", I, 0, any, "class zq { async _zr }", "class zq { async _zr ( ) { } }"),
    ("class", X, PRI, any, "( class )", "( class { } )"),
    ("class", X, PRI, any, "( class zq )", "( class zq { } )"),
    ("class", X, PRI, any, "( class extends { } )", "( class extends zq { } )"),
    ("class", X, PRI, any, "( class extends zq )", "( class extends zq { } )"),
    ("class", X, PRI, any, "( class ( ) { } )", "( class { } )"),
    ("class", X, PRI, any, "( class { $T $m zr $< } )", "( class { $T $m zr ( ) { } $< } )"),
    ("class", X, PRI, any, "( class if { } )", "( class zq { } )"),
    ("class", X, PRI, any, "( class 1 { } )", "( class zq { } )"),
    ("list", X, PRI, any, "( zq , )", "( zq , zr )"),
    ("list", X, PRI, any, "( , zq )", "( zr , zq )"),
    ("list", X, PRI, any, "( zq , , zr )", "( zq , zr )"),
    ("list", X, PRI, any, "( zq zr )", "( zq , zr )"),
    ("list", X, PRI, any, "( zq 1 )", "( zq , 1 )"),
    ("list", X, PRI, any, "( 1 zq )", "( 1 , zq )"),
    ("list", X, PRI, any, "( 'zq' 'zr' )", "( 'zq' , 'zr' )"),
    ("list", X, PRI, any, "( zq : zr )", "( zq , zr )"),
    ("list", X, PRI, any, "( zq ; )", "( zq . zr )"),
    ("list", X, PRI, any, "( ; )", "( zq . zr )"),
    ("list", X, PRI, any, "( ... zq )", "( [ ... zq ] )"),
    ("list", X, PRI, any, "[ ... ]", "[ ... zq ]"),
    ("list", X, PRI, any, "[ ; ]", "[ , ]"),
    ("list", X, PRI, any, "[ zq zr ]", "[ zq , zr ]"),
    ("list", X, PRI, any, "[ zq ; zr ]", "[ zq , zr ]"),
    ("list", X, PRI, any, "[ zq : zr ]", "[ zq , zr ]"),
    ("list", X, PRI, any, "[ ... ... zq ]", "[ ... zq ]"),
    ("list", X, PRI, any, "[ $e , ... ]", "[ $e , ... zq ]"),
    ("object", X, PRI, any, "{ zq : }", "{ zq : zr }"),
    ("object", X, PRI, any, "{ : zq }", "{ zr : zq }"),
    ("object", X, PRI, any, "{ zq zr }", "{ zq , zr }"),
    ("object", X, PRI, any, "{ zq ; zr }", "{ zq , zr }"),
    ("object", X, PRI, any, "{ , }", "{ }"),
    ("object", X, PRI, any, "{ , zq }", "{ zq }"),
    ("object", X, PRI, any, "{ zq , , zr }", "{ zq , zr }"),
    ("object", X, PRI, any, "{ [ zq ] }", "{ [ zq ] : 1 }"),
    ("object", X, PRI, any, "{ [ ] : 1 }", "{ [ zq ] : 1 }"),
    ("object", X, PRI, any, "{ 1 }", "{ 1 : 1 }"),
    ("object", X, PRI, any, "{ 'zq' }", "{ 'zq' : 1 }"),
    ("object", X, PRI, any, "{ get zq }", "{ get zq ( ) { } }"),
    ("object", X, PRI, any, "{ set zq }", "{ set zq ( zr ) { } }"),
    ("object", X, PRI, any, "{ get zq : 1 }", "{ get : 1 }"),
    ("object", X, PRI, any, "{ set zq , }", "{ set , zq }"),
    ("object", X, PRI, any, "{ zq ( ) }", "{ zq ( ) { } }"),
    ("object", X, PRI, any, "{ zq ( ) ; }", "{ zq ( ) { } }"),
    ("object", X, PRI, any, "{ zq ( ) : 1 }", "{ zq : 1 }"),
    ("object", X, PRI, any, "{ zq { } }", "{ zq : { } }"),
    ("object", X, PRI, any, "{ ... }", "{ ... zq }"),
    ("object", X, PRI, any, "{ if }", "{ if : 1 }"),
    ("object", X, PRI, any, "{ this }", "{ this : 1 }"),
    ("object", X, PRI, any, "{ zq , if }", "{ zq , if : 1 }"),
    ("object", X, PRI, any, "{ zq . zr }", "{ zq , zr }"),
    ("object", X, PRI, any, "{ zq + 1 }", "{ zq : + 1 }"),
    ("object", X, PRI, any, "{ zq ( ) { } zr ( ) { } }", "{ zq ( ) { } , zr ( ) { } }"),
    ("object", X, PRI, any, "{ * zq : 1 }", "{ * zq ( ) { } }"),
    ("object", X, PRI, any, "{ * zq }", "{ * zq ( ) { } }"),
    ("object", X, PRI, any, "{ * }", "{ * zq ( ) { } }"),
    ("object", X, PRI, any, "{ async _zq : 1 }", "{ async _zq ( ) { } }"),
    ("object", X, PRI, any, "{ async _zq }", "{ async _zq ( ) { } }"),
    ("object", X, PRI, any, "{ zq => 1 }", "{ zq : zr => 1 }"),
    ("object", X, PRI, any, "{ zq : zr zs }", "{ zq : zr , zs }"),
    ("object", X, PRI, any, "{ zq : zr : zs }", "{ zq : zr }"),
    ("object", X, PRI, any, "{ $o $k : 1 }", "{ $o , $k : 1 }"),
    ("call", X, CAL, any, "zq . ( )", "zq . zr ( )"),
    ("call", X, CAL, any, "zq . 'zr'", "zq . zr"),
    ("call", X, CAL, any, "zq . [ 0 ]", "zq . zr [ 0 ]"),
    ("call", X, CAL, any, "zq . . zr", "zq . zs . zr"),
    ("call", X, CAL, any, "zq [ ]", "zq [ 0 ]"),
    ("call", X, CAL, any, "zq [ 0 , ]", "zq [ 0 , 1 ]"),
    ("call", X, CAL, any, "zq ( , )", "zq ( )"),
    ("call", X, CAL, any, "zq ( , zr )", "zq ( zs , zr )"),
    ("call", X, CAL, any, "zq ( zr , , zs )", "zq ( zr , zs )"),
    ("call", X, CAL, any, "zq ( ... )", "zq ( ... zr )"),
    ("call", X, CAL, any, "zq ( zr zs )", "zq ( zr , zs )"),
    ("call", X, CAL, any, "zq ( zr ; )", "zq ( zr )"),
    ("call", X, CAL, any, "zq ( zr : zs )", "zq ( zr , zs )"),
    ("call", X, CAL, any, "( new )", "( new zq )"),
    ("call", X, CAL, any, "( new ( ) )", "( new ( zq ) )"),
    ("call", X, CAL, any, "( new . zq )", "( new zq )"),
    ("call", X, CAL, any, "( new zq . ( ) )", "( new zq . zr ( ) )"),
    ("call", X, CAL, any, "( new zq ( zr zs ) )", "( new zq ( zr , zs ) )"),
    ("call", X, CAL, any, "( new new )", "( new new zq )"),
    ("call", X, CAL, any, "( new + zq )", "( new zq )"),
    ("call", X, CAL, any, "( import )", "( import ( zq ) )"),
    ("call", X, CAL, any, "( import ( ) )", "( import ( zq ) )"),
    ("call", X, CAL, any, "( import . zq )", "( import ( zq ) . zq )"),
    ("call", X, CAL, any, "( new import ( zq ) )", "( new ( import ( zq ) ) )"),
    ("conditional", X, PRI, any, "( zq ? : zr )", "( zq ? zs : zr )"),
    ("conditional", X, PRI, any, "( zq ? zs : )", "( zq ? zs : zr )"),
    ("conditional", X, PRI, any, "( zq ? zs )", "( zq ? zs : zr )"),
    ("conditional", X, PRI, any, "( ? zs : zr )", "( zq ? zs : zr )"),
    ("conditional", X, PRI, any, "( zq ? )", "( zq ? zs : zr )"),
    ("conditional", X, PRI, any, "( zq ? zs , zt : zr )", "( zq ? ( zs , zt ) : zr )"),
    ("conditional", X, PRI, any, "( zq ? zs : zr : zt )", "( zq ? zs : zr ? zs : zt )"),
    ("conditional", X, PRI, any, "( zq ? zr ? zs : zt )", "( zq ? zr ? zs : zt : zu )"),
    ("conditional", X, PRI, any, "( $e ? $e )", "( $e , $e )"),
    ("module", I, 0, module_top, "import ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq } ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq zr } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { , } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq , , zr } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import * from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import * zq from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import * as from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq , from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import , zq from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq as } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { as zq } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq from zr ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq from ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import 1 ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq zr from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq } , zr from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq } 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import * as zq 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import * as zq ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import * as zq , zr from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { * as zq } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { 1 } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq . zr } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import ( ) ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import = 1 ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq = 1 ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import { zq : zr } from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq , zr from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import zq , * from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "import [ zq ] from 'zm' ;", "import zq from 'zm' ;"),
    ("module", I, 0, module_top, "export ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export zq ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export zq , zr ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq zr } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { , } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq , , zr } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export * ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export * from ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export * 'zm' ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export * from zq ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export var ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export function ( ) { }", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export class { }", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq as } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { as zq } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq } from ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq } from zr ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq } 'zm' ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default var zq ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default const zq = 1 ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export 1 ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export = 1 ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export if ( 1 ) ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export zq = 1 ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export ( zq ) ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export import 'zm' ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export export * from 'zm' ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { 1 } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq : zr } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq . zr } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export [ zq ] ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default zq zr ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default zq , zr ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default ( zq ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export function zq ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export function * ( ) { }", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export function zq ( )  ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export class zq ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export const ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export const zq = ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export let zq , ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export var zq zr ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export async ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { zq , default ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { * } ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default if ( 1 ) ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default throw 1 ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export debugger ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export { } zq ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default function ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default class ;", "export * from 'zm' ;"),
    ("module", I, 0, module_top, "export default async _function ;", "export * from 'zm' ;"),
];

const BIN: &[&str] = &[
    "*", "/", "%", "+", "-", "<<", ">>", ">>>", "<", ">", "<=", ">=", "in", "instanceof", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "**",
];
const ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "**="];
const UNARY: &[&str] = &["!", "~", "+", "-", "typeof", "void", "delete", "++", "--"];

/// operators without an operand
pub fn operators() -> Vec<Row> {
    let mut v = vec![];
    let mut add = |group, bad: String, good: String| v.push(Row { group, slot: X, lvl: PRI, cond: any, bad, good });
    for o in BIN {
        let g = "binary operand";
        add(g, format!("( zq {} )", o), format!("( zq {} zr )", o));
        add(g, format!("( zq {} , zr )", o), format!("( zq {} zr )", o));
        add(g, format!("( zq {} ; )", o), format!("( zq {} zr )", o));
        add(g, format!("[ zq {} ]", o), format!("[ zq {} zr ]", o));
        add(g, format!("( $x {} )", o), format!("( $x {} zr )", o));
        if !["+", "-", "/"].contains(o) {
            add(g, format!("( {} zq )", o), format!("( zr {} zq )", o));
            add(g, format!("( zq , {} zr )", o), format!("( zq , zs {} zr )", o));
            add(g, format!("( zq = {} zr )", o), format!("( zq = zs {} zr )", o));
            for p in ["*", "%", "<", "in", "==", "&&", "**", "instanceof"].iter() {
                if !(*o == "*" && *p == "*") {
                    add(g, format!("( zq {} {} zr )", p, o), format!("( zq {} ( zs {} zr ) )", p, o));
                }
            }
        }
        add(g, format!("( zq {} => zr )", o), format!("( zq {} ( zr => zs ) )", o));
        add(g, format!("( zq {} = zr )", o), format!("( zq {} ( zs = zr ) )", o));
        add(g, format!("( zq {} ? zr : zs )", o), format!("( zq {} zt ? zr : zs )", o));
    }
    for o in ASSIGN {
        let g = "assigned value";
        add(g, format!("( zq {} )", o), format!("( zq {} zr )", o));
        add(g, format!("( zq {} , zr )", o), format!("( zq {} zr )", o));
        add(g, format!("[ zq {} ]", o), format!("[ zq {} zr ]", o));
        if *o != "/=" {
            add(g, format!("( {} zq )", o), format!("( zr {} zq )", o));
        }
        add(g, format!("( zq {} = zr )", o), format!("( zq {} zs = zr )", o));
        add(g, format!("( zq {} => zr )", o), format!("( zq {} zr => zs )", o));
    }
    for o in UNARY {
        let g = "unary operand";
        add(g, format!("( {} )", o), format!("( {} zq . zr )", o));
        add(g, format!("( {} , zq )", o), format!("( {} zr . zs , zq )", o));
        add(g, format!("( zq , {} )", o), format!("( zq , {} zr . zs )", o));
        add(g, format!("[ {} ]", o), format!("[ {} zr . zs ]", o));
        add(g, format!("( zq ( {} ) )", o), format!("( zq ( {} zr . zs ) )", o));
        add(g, format!("( {} * zq )", o), format!("( {} zr . zs * zq )", o));
        add(g, format!("( {} = zq )", o), format!("( {} zr . zs , zq )", o));
        if !["+", "-", "++", "--"].contains(o) {
            add(g, format!("( zq {} zr )", o), format!("( zq + {} zr . zs )", o));
        }
    }
    v
}

pub fn all() -> Vec<Row> {
    let mut v = operators();
    v.extend(MISSING.iter().map(|r| Row { group: r.0, slot: r.1, lvl: r.2, cond: r.3, bad: r.4.to_string(), good: r.5.to_string() }));
    v
}
