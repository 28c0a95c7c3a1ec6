//! Derive harness: XdrIndexer / XdrUnion derives against the reference model.
#![allow(static_mut_refs, dead_code, unreachable_patterns, clippy::all)]
#[path = "../../rt/rt.rs"]
#[macro_use]
mod rt;
#[path = "../../rt/spec.rs"]
#[macro_use]
mod spec;
#[path = "../../rt/oblig.rs"]
#[macro_use]
mod oblig;
use oblig::*;
use serde::ser::SerializeTuple;
use serde_xdr::{XdrIndexer, XdrUnion};
use serde_xdr_derive::{XdrIndexer, XdrUnion};
use spec::*;

/// declared indexes, possibly symbolic
static mut IX: [i32; 4] = [0; 4];
fn ix(i: usize) -> i32 {
    unsafe { IX[i] }
}

/// `Name = index [field: Ty, ...]`, index an i32 expression
macro_rules! indexer {
    (enum $n:ident { $($v:ident = $d:expr $(, [$($tf:ident : $tt:ty),*])?);* $(;)? }) => {
        #[derive(Debug, Clone, PartialEq, XdrIndexer)]
        pub enum $n { $($v $(($($tt),*))?),* }
        impl XdrIndexer for $n {
            type Error = ();
            fn name_by_index(i: i32) -> Result<&'static str, ()> {
                $(if i == $d { return Ok(stringify!($v)); })*
                Err(())
            }
            #[allow(unused_variables)]
            fn index(&self) -> i32 {
                match self { $($n::$v $(($($tf),*))? => $d),* }
            }
        }
        impl Spec for $n {
            fn enc(&self, o: &mut Vec<u8>) {
                match self { $($n::$v $(($($tf),*))? => { put_w(o, { let d: i32 = $d; d } as u32); $($($tf.enc(o);)*)? })* }
            }
            fn dec(i: &mut In) -> Result<Self, No> {
                let w = i.w()? as i32;
                $(if w == $d { $($(let $tf = <$tt as Spec>::dec(i)?;)*)? return Ok($n::$v $(($($tf),*))?); })*
                Err(No::Bad)
            }
            fn same(&self, o: &Self) -> bool {
                match (self, o) {
                    $(($n::$v $(($($tf),*))?, x) => { $($(let $tf = ($tf, ());)*)? idx_same!($n $v x $($($tf)*)?) })*
                }
            }
            fn sym() -> Self {
                let k = rt::choose([$(stringify!($v)),*].len() as u32);
                let mut j = 0;
                $(if k == j { $($(let $tf = <$tt as Spec>::sym();)*)? return $n::$v $(($($tf),*))?; } j += 1;)*
                let _ = j;
                unreachable!()
            }
        }
    };
}
/// equality by variant and by the fields' own notion of sameness
macro_rules! idx_same {
    ($n:ident $v:ident $x:ident) => { matches!($x, $n::$v) };
    ($n:ident $v:ident $x:ident $($f:ident)+) => {{
        // rebind: the left-hand fields are (reference, ())
        let l = ($($f.0,)+);
        match $x { $n::$v($($f),+) => { let r = ($($f,)+); all_same!(l, r; $($f)+) } _ => false }
    }};
}
macro_rules! all_same {
    ($l:ident, $r:ident; $($f:ident)+) => {{
        let ($($f,)+) = $l;
        let mut a: Vec<u8> = vec![];
        $($f.enc(&mut a);)+
        let ($($f,)+) = $r;
        let mut b: Vec<u8> = vec![];
        $($f.enc(&mut b);)+
        a == b
    }};
}
/// union over discriminant type $t: arms `Name when |v| cond, [field: Ty, ...]` tried in order
macro_rules! union {
    (enum $n:ident : $t:ty { $($v:ident when $c:expr, [$($tf:ident : $tt:ty),*]);* $(;)? }) => {
        #[derive(Debug, Clone, PartialEq, XdrUnion)]
        pub enum $n { $($v ($t $(, $tt)*)),* }
        impl XdrUnion<$t> for $n {
            type Error = ();
            fn name_by_value(v: &$t) -> Result<&'static str, ()> {
                $(if (($c) as fn(&$t) -> bool)(v) { return Ok(stringify!($v)); })*
                Err(())
            }
        }
        impl Spec for $n {
            fn enc(&self, o: &mut Vec<u8>) {
                match self { $($n::$v(value $(, $tf)*) => { value.enc(o); $($tf.enc(o);)* })* }
            }
            fn dec(i: &mut In) -> Result<Self, No> {
                let value = <$t as Spec>::dec(i)?;
                $(if (($c) as fn(&$t) -> bool)(&value) { $(let $tf = <$tt as Spec>::dec(i)?;)* return Ok($n::$v(value $(, $tf)*)); })*
                Err(No::Bad)
            }
            fn same(&self, o: &Self) -> bool {
                match (self, o) {
                    $(($n::$v(value $(, $tf)*), $n::$v(..)) => { let _ = value; $(let _ = $tf;)* let (mut a, mut b) = (vec![], vec![]); self.enc(&mut a); o.enc(&mut b); a == b })*
                    _ => false,
                }
            }
            fn sym() -> Self {
                let k = rt::choose([$(stringify!($v)),*].len() as u32);
                let value = <$t as Spec>::sym();
                let mut j = 0;
                $(
                    let hit = (($c) as fn(&$t) -> bool)(&value);
                    if k == j {
                        rt::assume(hit);
                        $(let $tf = <$tt as Spec>::sym();)*
                        return $n::$v(value $(, $tf)*);
                    }
                    rt::assume(!hit);
                    j += 1;
                )*
                let _ = j;
                unreachable!()
            }
        }
    };
}

spec_struct! { struct Pt { x: i16, y: Option<u8> } }
spec_enum! { enum Color { Red 0, Green 1, Blue 2 } }

// ------------------------------------------------------------- D01
indexer! { enum Plain { Neg = -5; Zero = 0; One = 1; Big = i32::MAX; Low = i32::MIN } }
indexer! { enum Mix { A = 7; B = 3, [a: u16]; C = -1, [a: i32, b: String]; D = 100, [p: Pt]; E = 4, [o: Option<Plain>]; F = 5, [v: Vec<i16>]; G = 6, [t: (u8, i64)] } }
indexer! { enum Free { A = ix(0); B = ix(1), [a: u16]; C = ix(2), [a: i32, b: bool]; D = ix(3), [p: Pt] } }
indexer! { enum One { Only = 42, [v: u64] } }
indexer! { enum Nested { L = 0; N = 1, [a: Mix, b: Plain]; U = 2, [u: UInt] } }
indexer! { enum Wide8 { A = 1; B = 2, [a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8] } }
indexer! { enum Wide9 { A = 1; B = 2, [a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8] } }
indexer! { enum Wide10 { A = 1; B = 2, [a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8] } }
indexer! { enum Wide14 { A = 1; B = 2, [a: u8, b: u16, c: u8, d: u8, e: u32, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: i8, n: u64] } }
spec_struct! { struct Holder { a: u8, m: Mix, l: Vec<Plain>, o: Option<One>, z: u16 } }
type W8 = (Wide8, u8);

fn free<T: Codec>(f: fn()) {
    unsafe {
        for k in 0..4 {
            IX[k] = rt::u32() as i32;
            for j in 0..k {
                rt::assume(IX[j] != IX[k]);
            }
        }
    }
    f()
}
#[unsafe(no_mangle)]
pub fn d01_wire() {
    bounds(4, 2);
    group!(wire; Plain, Mix, One, Nested, Wide8, Wide9, Wide10, Wide14, Holder, W8, Vec<Mix>, Option<Mix>)
}
#[unsafe(no_mangle)]
pub fn d01_round() {
    bounds(4, 2);
    group!(round; Plain, Mix, One, Nested, Wide8, Wide9, Wide10, Wide14, Holder, W8, Vec<Mix>, Option<Mix>)
}
#[unsafe(no_mangle)]
pub fn d01_unwire() {
    bounds(4, 2);
    group!(unwire; Plain, Mix, One, Nested, Wide8, Wide9, Wide10, Wide14, Holder, W8, Vec<Mix>, Option<Mix>)
}
#[unsafe(no_mangle)]
pub fn d01_any_index() {
    match rt::choose(3) {
        0 => free::<Free>(wire::<Free>),
        1 => free::<Free>(unwire::<Free>),
        _ => free::<Free>(|| decode_eq::<Free>((16, 0))),
    }
}
#[unsafe(no_mangle)]
pub fn d01_decode() {
    group_n!(decode_eq; Plain: (9, 0), Mix: (18, 4), One: (14, 0), Nested: (16, 0), Wide8: (40, 0), Wide9: (42, 0), Wide10: (46, 0), Wide14: (66, 0), Holder: (24, 0), W8: (40, 0), Option<Mix>: (16, 8), Vec<Plain>: (20, 1))
}
#[unsafe(no_mangle)]
pub fn d01_framing() {
    bounds(4, 1);
    group!(framing; Plain, Mix, One, Nested, Wide9, Wide14, Holder)
}

// ------------------------------------------------------------- D02
union! { enum UInt : i32 { A when |v| *v == 1, []; B when |v| *v == -3, [a: u16]; C when |v| *v == i32::MAX, [a: i32, b: String]; D when |v| *v == i32::MIN || *v == 0, [p: Pt] } }
union! { enum UUns : u32 { A when |v| *v == 1, []; B when |v| *v == 0, [a: u16]; C when |v| *v == u32::MAX || *v == 0x8000_0000, [a: i32, b: bool]; Other when |_| true, [o: Option<u8>] } }
union! { enum UBool : bool { No when |v| !*v, []; Yes when |v| *v, [a: Vec<i16>] } }
union! { enum UBool1 : bool { Yes when |v| *v, [a: u8] } }
union! { enum UColor : Color { R when |v| *v == Color::Red, [a: u8]; Rest when |_| true, [] } }
union! { enum UPlain : Plain { N when |v| *v == Plain::Neg, [a: u8]; O when |v| *v == Plain::One, []; B when |v| *v == Plain::Big || *v == Plain::Low, [n: UUns] } }
union! { enum UFree : i32 { A when |v| *v == ix(0), []; B when |v| *v == ix(1), [a: u16]; C when |v| *v == ix(2) || *v == ix(3), [p: Pt] } }
union! { enum UFreeD : u32 { A when |v| *v as i32 == ix(0), []; B when |v| *v as i32 == ix(1), [a: u16]; D when |_| true, [o: Option<i8>] } }
union! { enum UW9 : i32 { A when |v| *v == 1, []; B when |v| *v == 2, [a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8] } }
union! { enum UW10 : i32 { A when |v| *v == 1, []; B when |v| *v == 2, [a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8] } }
union! { enum UW11 : i32 { A when |v| *v == 1, []; B when |v| *v == 2, [a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8] } }
union! { enum UW14 : u32 { A when |v| *v == 1, []; B when |v| *v == 2, [a: u8, b: u16, c: u8, d: u8, e: u32, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: i8, m: u64] } }
spec_struct! { struct UHold { a: u8, m: UInt, l: Vec<UBool1>, o: Option<UColor>, z: u16 } }

#[unsafe(no_mangle)]
pub fn d02_wire() {
    bounds(4, 2);
    group!(wire; UInt, UUns, UBool, UBool1, UColor, UPlain, UW9, UW10, UW11, UW14, UHold, (UUns, u8), Vec<UInt>)
}
#[unsafe(no_mangle)]
pub fn d02_round() {
    bounds(4, 2);
    group!(round; UInt, UUns, UBool, UBool1, UColor, UPlain, UW9, UW10, UW11, UW14, UHold, (UUns, u8), Vec<UInt>)
}
#[unsafe(no_mangle)]
pub fn d02_unwire() {
    bounds(4, 2);
    group!(unwire; UInt, UUns, UBool, UBool1, UColor, UPlain, UW9, UW10, UW11, UW14, UHold, (UUns, u8), Vec<UInt>)
}
#[unsafe(no_mangle)]
pub fn d02_any_value() {
    match rt::choose(6) {
        0 => free::<UFree>(wire::<UFree>),
        1 => free::<UFree>(unwire::<UFree>),
        2 => free::<UFree>(|| decode_eq::<UFree>((14, 0))),
        3 => free::<UFreeD>(wire::<UFreeD>),
        4 => free::<UFreeD>(unwire::<UFreeD>),
        _ => free::<UFreeD>(|| decode_eq::<UFreeD>((14, 0))),
    }
}
#[unsafe(no_mangle)]
pub fn d02_decode() {
    group_n!(decode_eq; UInt: (18, 4), UUns: (14, 0), UBool: (16, 2), UBool1: (9, 0), UColor: (9, 0), UPlain: (16, 0), UW9: (40, 0), UW10: (42, 0), UW11: (46, 0), UW14: (64, 0), UHold: (30, 0), Vec<UBool1>: (20, 1), Option<UInt>: (18, 8))
}
#[unsafe(no_mangle)]
pub fn d02_framing() {
    bounds(4, 1);
    group!(framing; UInt, UUns, UBool, UColor, UPlain, UW11, UW14, UHold)
}
#[unsafe(no_mangle)]
pub fn d01_deep() {
    group_n!(decode_eq; Nested: (22, 0), Holder: (32, 0), Mix: (26, 4), Vec<Plain>: (24, 1), Vec<Mix>: (16, 1))
}
#[unsafe(no_mangle)]
pub fn d02_deep() {
    group_n!(decode_eq; UInt: (28, 4), UPlain: (24, 0), UHold: (40, 0), Vec<UInt>: (20, 1), Vec<UUns>: (24, 1))
}
entries!(d01_deep, d02_deep, d01_wire, d01_round, d01_unwire, d01_any_index, d01_decode, d01_framing, d02_wire, d02_round, d02_unwire, d02_any_value, d02_decode, d02_framing);
