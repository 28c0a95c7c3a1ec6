//! Generated-code harness: the code rpcgen generates for the schemas under `schema`, in every
//! mode, against the reference model.
#![allow(static_mut_refs, dead_code, unused_imports, unreachable_patterns, non_camel_case_types, clippy::all)]
#[path = "../../rt/rt.rs"]
#[macro_use]
mod rt;
#[path = "../../rt/spec.rs"]
#[macro_use]
mod spec;
#[path = "../../rt/oblig.rs"]
#[macro_use]
mod oblig;
#[macro_use]
mod glue;
use glue::*;
use oblig::*;
use serde_xdr::{from_bytes, to_bytes};
use spec::*;

macro_rules! gen_file {
    ($f:literal) => {
        include!(concat!(env!("OUT_DIR"), "/", $f, ".rs"));
    };
}

/// opaque data in an arm: an attribute in complement mode, a wrapper in the others
macro_rules! arm_types {
    (C) => {
        type AV = Opq;
        type AF<const N: usize> = OpqF<N>;
    };
    ($u:ident) => {
        type AV = OpqW;
        type AF<const N: usize> = OpqFW<N>;
    };
}

macro_rules! base {
    ($m:ident $f:literal $e:ident $u:ident) => {
        pub mod $m {
            gen_file!($f);
            use crate::glue::*;
            use crate::rt;
            use crate::oblig::*;
            use crate::spec::*;
            use crate::{both, dec, dflt, unlisted_arm, unlisted_enum};
            arm_types!($u);
            type I = P<i32>;
            type W = P<u32>;

            genum! { $e; Color { RED = 0, GREEN = 1, BLUE = 4 } Status { StLen = 3, StAgainX = 5, StOct = 8, StWorst = 10 } Dense { DZero = 0, DOne = 1 } }
            gstruct! {
                Scalars { a: I, b: W, c: P<i64>, d: P<u64>, e: P<f32>, f: P<f64>, g: P<bool>, h: W }
                SmallInts { a: P<i8>, b: P<u8>, c: P<i16>, d: P<u16> }
                Texts { s: P<String>, v: Opq, f3: OpqF<3>, f4: OpqF<4>, t: P<String> }
                Pair { x: P<u16>, y: I }
                Arrays { fix: Arr<I, 3>, var: Seq<W>, b: Arr<P<bool>, 2> }
                Earrays { cf: Arr<P<Color>, 2>, cv: Seq<P<Color>> }
                Parrays { pf: Arr<P<Pair>, 2>, pv: Seq<P<Pair>> }
                Opts { p: Opt<I>, c: Opt<P<Color>>, q: Opt<P<Pair>>, h: Opt<P<i64>> }
                Node { value: I, next: Bx<Opt<P<Node>>> }
                Tree { value: P<i16>, kids: Bx<Seq<P<Tree>>> }
                Words { r#type: I, r#match: W, self_: P<i16>, _x: I, camel_case: I, r2d2: I, upper: P<i64> }
                Aliases { n: I, m: I, t: P<Color>, r: Arr<I, 3>, i: Seq<P<u64>>, s: P<String> }
                Aliases2 { arr: Arr<I, 2>, rr: Arr<Arr<I, 3>, 2>, o: Opt<I>, ro: Opt<Arr<I, 3>> }
                Aliases3 { vv: Seq<Seq<P<u64>>>, tv: Seq<P<Color>> }
                Enums { s: P<Status>, k: I, d: P<Dense>, o: Opt<P<Status>> }
                Gaps { a: I, b: I }
                Holder { a: P<UInt>, b: Seq<P<UEnum>>, c: Opt<P<UBool>>, d: Arr<P<UNum>, 2>, z: I }
            }
            gunion! { $u;
                UInt: i32 { Case0 = 0 [x: I], Case3 = 3, Case5 = 5 [x: P<String>], Case7 = 7 [x: P<String>] }
                UUns: u32 { Case1 = 1 [x: P<i64>], LEN = 3 [x: AV]; Default 4 }
                UDef: i32 { Case1 = 1 [x: Seq<I>], Case2 = 2 [x: P<Pair>]; Default 3 [x: P<u64>] }
                UBool: bool { FALSE = 0, TRUE = 1 [x: I] }
                UBool1: bool { TRUE = 1 [x: AF<3>]; Default 0 [x: W] }
                UBool0: bool { FALSE = 0 [x: P<i16>]; Default 1 }
                UEnum: Color { RED = 0 [x: I], GREEN = 1, BLUE = 4 [x: P<Pair>] }
                UStat: Status { StLen = 3 [x: Opt<P<Pair>>], Case8 = 8 [x: AF<5>], StWorst = 10 [x: Arr<P<Pair>, 2>] }
                UAlias: Color { GREEN = 1 [x: AF<5>]; Default 2 [x: P<String>] }
                UNum: i32 { Case2 = 2 [x: P<Color>], Case4 = 4 [x: P<Node>]; Default 5 }
            }
            /// values of generated constants
            pub fn constants() -> [i64; 6] {
                [LEN as i64, ALSO as i64, HEX as i64, OCT as i64, NEG as i64, HUGE as i64]
            }
            /// the numeric value the enum itself carries
            pub fn casts() -> [i32; 8] {
                [Color::RED as i32, Color::GREEN as i32, Color::BLUE as i32, Status::StLen as i32, Status::StAgainX as i32, Status::StOct as i32, Status::StWorst as i32, Dense::DOne as i32]
            }
            pub fn plain() {
                crate::group!(both; Scalars, SmallInts, Texts, Pair, Opts, Node, Tree, Words, Gaps)
            }
            pub fn lists() {
                crate::group!(both; Arrays, Earrays, Parrays, Aliases, Aliases2, Aliases3, Enums, Holder)
            }
            pub fn unions() {
                crate::group!(both; UInt, UUns, UDef, UBool, UBool1, UBool0, UEnum, UStat, UAlias, UNum)
            }
            pub fn dec_plain() {
                crate::group_n!(dec; Scalars: (11, 0), SmallInts: (5, 0), Texts: (8, 0x3), Opts: (9, 0), Node: (7, 0), Tree: (6, 0x2), Words: (9, 0), Gaps: (3, 0), Arrays: (9, 0x8), Parrays: (8, 0x10), Aliases: (9, 0x40), Aliases2: (13, 0))
            }
            pub fn dec_lists() {
                crate::group_n!(dec; Earrays: (4, 0x4), Aliases3: (4, 0x3), Enums: (4, 0), Holder: (5, 0x8))
            }
            pub fn dec_unions() {
                crate::group_n!(dec; UInt: (5, 0x2), UUns: (5, 0x2), UDef: (5, 0x2), UBool: (3, 0), UBool1: (3, 0), UBool0: (3, 0), UEnum: (4, 0), UStat: (6, 0), UAlias: (5, 0x2), UNum: (5, 0))
            }
            pub fn defs() {
                crate::group!(dflt; Color, Status, Dense, Scalars, SmallInts, Texts, Pair, Arrays, Earrays, Parrays, Opts, Node, Tree, Words, Aliases, Aliases2, Aliases3, Enums, Gaps, UInt, UBool, UBool1, UBool0, UEnum, UStat)
            }
            /// unions whose default arm keeps no discriminant in indexer mode
            pub fn dflt_other() {
                crate::group!(dflt; UUns, UDef, UNum, Holder)
            }
            pub fn dflt_alias() {
                crate::group!(dflt; UAlias)
            }
            /// a word that no enumerator has
            pub fn no_enum() {
                crate::group!(unlisted_enum; Color, Status, Dense)
            }
            pub fn no_arm() {
                crate::group!(unlisted_arm; UInt, UUns, UDef, UBool, UBool1, UBool0, UEnum, UStat, UAlias, UNum)
            }
        }
    };
}
base!(cc "base_ccr" C C);
base!(ci "base_cir" C I);
base!(cu "base_cur" C U);
base!(sc "base_scr" S C);
base!(si "base_sir" S I);
base!(su "base_sur" S U);
base!(ic "base_icr" I C);
base!(ii "base_iir" I I);
base!(iu "base_iur" I U);
base!(kcc "base_cck" C C);
base!(ksi "base_sik" S I);
base!(kiu "base_iuk" I U);

macro_rules! opq {
    ($m:ident $f:literal $u:ident) => {
        pub mod $m {
            gen_file!($f);
            use crate::glue::*;
            use crate::rt;
            use crate::spec::*;
            use crate::oblig::*;
            use crate::{both, dec, dflt};
            arm_types!($u);
            gstruct! {
                OPlain { b: Opq, c: OpqF<5>, t: OpqF<5>, z: P<i32> }
                OLists { bl: Seq<OpqW>, cl: Seq<OpqFW<5>>, z: P<i32> }
                OArrays { bf: Arr<OpqW, 2>, cf: Arr<OpqFW<5>, 2>, z: P<i32> }
                OOpts { bo: Opt<OpqW>, co: Opt<OpqFW<5>>, m: Opt<OpqW>, z: P<i32> }
                ODeep { p: Seq<OpqFW<5>>, pp: Seq<Seq<OpqFW<5>>> }
            }
            gunion! { $u;
                OUnion: i32 { Case0 = 0 [x: AV], Case1 = 1 [x: AF<5>], Case2 = 2 [x: Seq<OpqW>], Case3 = 3 [x: Opt<OpqFW<5>>], Case4 = 4 [x: AV], Case5 = 5 [x: AF<6>] }
                ODef: u32 { Case0 = 0; Default 1 [x: AF<5>] }
                ODefv: i32 { Case1 = 1 [x: P<i32>]; Default 2 [x: AV] }
            }
            pub fn defs() {
                crate::group!(dflt; OPlain, OLists, OArrays, OOpts, ODeep, OUnion)
            }
            pub fn dflt_other() {
                crate::group!(dflt; ODef, ODefv)
            }
            pub fn wires() {
                crate::group!(both; OPlain, OLists, OArrays, OOpts, ODeep, OUnion, ODef, ODefv)
            }
            pub fn decodes() {
                crate::group_n!(dec; OPlain: (7, 1), OLists: (5, 0x3), OArrays: (8, 1), OOpts: (7, 0), ODeep: (5, 3), OUnion: (5, 6), ODef: (4, 0), ODefv: (4, 2))
            }
        }
    };
}
opq!(oc "opq_ccr" C);
opq!(oi "opq_sir" I);
opq!(ou "opq_iur" U);

macro_rules! neg {
    ($m:ident $f:literal $e:ident) => {
        pub mod $m {
            gen_file!($f);
            use crate::{both, dec, dflt};
            use crate::glue::*;
            use crate::oblig::*;
            use crate::rt;
            use crate::spec::*;
            use crate::unlisted_enum;
            genum! { $e; SignedE { AMin = -2147483648, ANeg = -3, AZero = 0, AMax = 2147483647 } }
            gstruct! { SHolder { a: P<SignedE>, l: Seq<P<SignedE>>, o: Opt<P<SignedE>>, f: Arr<P<SignedE>, 2> } }
            pub fn defs() {
                crate::group!(dflt; SignedE, SHolder)
            }
            pub fn wires() {
                crate::group!(both; SignedE, SHolder)
            }
            pub fn decodes() {
                crate::group_n!(dec; SignedE: (2, 0), SHolder: (5, 2))
            }
            pub fn no_enum() {
                unlisted_enum::<SignedE>()
            }
            pub fn low() -> i64 {
                LOW as i64
            }
        }
    };
}
neg!(ns "neg_suk" S);
neg!(ni "neg_icr" I);

macro_rules! rec {
    ($m:ident $f:literal $u:ident) => {
        pub mod $m {
            gen_file!($f);
            use crate::{both, dec, dflt};
            use crate::glue::*;
            use crate::oblig::*;
            use crate::rt;
            use crate::spec::*;
            gstruct! {
                Entry { v: P<i32>, next: Bx<Opt<P<Entry>>> }
                Even { v: P<i16>, next: Bx<Opt<P<Odd>>> }
                Odd { v: P<i32>, next: Bx<Opt<P<Even>>> }
                Cell { v: P<u32>, next: Bx<P<List>> }
                Binary { l: Bx<Opt<P<Expr>>>, r: Seq<P<Expr>> }
                Forest { kids: Bx<Seq<P<Forest>>>, first: Opt<P<Entry>> }
            }
            gunion! { $u;
                List: i32 { Case0 = 0 [x: Lk<P<Cell>>], Case1 = 1 }
                Expr: bool { FALSE = 0 [x: Lk<P<Binary>>], TRUE = 1 [x: P<i32>] }
                Chain: u32 { Case2 = 2 [x: Bx<Opt<P<Chain>>>]; Default 3 [x: P<i32>] }
            }
            pub fn defs() {
                crate::group!(dflt; Entry, Even, Odd, List, Cell, Expr, Binary, Forest)
            }
            pub fn dflt_other() {
                dflt::<Chain>()
            }
            pub fn wires() {
                crate::group!(both; Entry, Even, Odd, List, Cell, Expr, Binary, Chain, Forest)
            }
            pub fn decodes() {
                crate::group_n!(dec; Entry: (5, 0), Even: (5, 0), List: (5, 0), Cell: (5, 0), Expr: (4, 0), Binary: (3, 0), Chain: (6, 0), Forest: (3, 0))
            }
        }
    };
}
rec!(rc "rec_ccr" C);
rec!(ri "rec_sir" I);
rec!(ru "rec_iur" U);
rec!(rk "rec_suk" U);

macro_rules! names {
    ($m:ident $f:literal $e:ident $u:ident) => {
        pub mod $m {
            gen_file!($f);
            use crate::{both, dec, dflt};
            use crate::glue::*;
            use crate::oblig::*;
            use crate::rt;
            use crate::spec::*;
            arm_types!($u);
            genum! { $e; Result_ { ROk = 0, RErr = 1 } XdrIndexer_ { X = 0 } }
            gstruct! {
                Option_ { v: P<i32>, r: P<Result_> }
                Box_ { v: Seq<P<String>>, o: Opt<P<Option_>>, s: P<Option_>, f: Arr<P<Result_>, 2> }
                Serialize_ { n: Opt<P<Deserialize_>>, d: P<Default_> }
                Deserialize_ { a: P<String>, b: P<AsRef_> }
                TryFrom_ { u: P<XdrUnion_> }
            }
            gunion! { $u;
                Default_: Result_ { ROk = 0 [x: P<Box_>], RErr = 1 [x: Seq<P<Option_>>] }
                AsRef_: bool { FALSE = 0, TRUE = 1 [x: P<TryFrom_>] }
                XdrUnion_: i32 { Case1 = 1 [x: P<i32>], Case2 = 2 [x: AV] }
            }
            pub fn defs() {
                crate::group!(dflt; Result_, XdrIndexer_, Option_, Box_, Serialize_, Deserialize_, TryFrom_, Default_, AsRef_, XdrUnion_)
            }
            pub fn wires() {
                crate::group!(both; Result_, Option_, Box_, Serialize_, Deserialize_, Default_)
            }
        }
    };
}
names!(mc "names_ccr" C C);
names!(mi "names_sir" S I);
names!(mu "names_iuk" I U);

pub fn both<T: Codec>() {
    if rt::choose(2) == 0 { wire::<T>() } else { unwire::<T>() }
}
/// every input of 0 to n.0 words, and of one byte more or less
pub fn dec<T: Codec>(n: (usize, u32)) {
    let k = 4 * rt::upto(n.0 + 1);
    let k = match rt::choose(if k == 4 * n.0 { 3 } else { 1 }) {
        0 => k,
        1 => k - 1,
        _ => k + 1,
    };
    let b = msg(k, n.1);
    decode_bytes::<T>(&b, true)
}
/// the default is a value of the definition: encodes, and decodes to itself
pub fn dflt<T: Codec + Default>() {
    let v = T::default();
    let b = match to_bytes(&v) {
        Ok(b) => b,
        Err(_) => return rt::fail("encoder refuses the default"),
    };
    rt::observe(&b);
    let mut i = In { b: &b, p: 0 };
    match T::dec(&mut i) {
        Ok(w) => {
            rt::check(i.p == b.len(), "encoding of the default is longer than its value");
            rt::check(w.same(&v), "encoding of the default is another value");
        }
        Err(_) => rt::fail("default is no value of its definition"),
    }
    match from_bytes::<T>(&b) {
        Ok(w) => rt::check(w.same(&v), "default changes when it is encoded and decoded"),
        Err(_) => rt::fail("encoding of the default does not decode"),
    }
    rt::reach("default");
}
/// with any bytes behind it, an enum word without enumerator does not decode
pub fn unlisted_enum<T: Codec + Listed>() {
    let n = rt::choose(2) as usize * 4;
    let b = rt::vec(4 + n);
    let w = ((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | b[3] as u32;
    rt::assume(!T::valid(w));
    match from_bytes::<T>(&b[..4]) {
        Ok(v) => {
            // complement mode's placeholders for gaps are documented
            if let Err(No::Skip) = T::dec(&mut In { b: &b, p: 0 }) {
                if v.word() == T::FIRST {
                    return rt::fail("indexer mode takes a word no enumerator has for the first enumerator");
                }
                rt::check(v.word() == 0x7777_7777, "a word no enumerator has decodes to an enumerator");
                rt::reach("placeholder");
                return;
            }
            rt::fail("a word no enumerator has is accepted")
        }
        Err(_) => rt::reach("refused"),
    }
}
/// a discriminant without arm does not decode, whatever follows it
pub fn unlisted_arm<T: Codec + UnionOf>()
where
    Tag<T>: Disc,
{
    let n = rt::upto(5) * 4;
    let b = rt::vec(4 + n);
    let w = ((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | b[3] as u32;
    rt::assume(!Tag::<T>::valid(w));
    // with a default arm the other values are its own, unless the switched type lacks them
    rt::assume(!T::DEFAULT || !T::D::valid(w));
    let want = T::dec(&mut In { b: &b, p: 0 });
    rt::assume(!matches!(want, Err(No::Skip)));
    match from_bytes::<T>(&b) {
        Ok(_) => match want {
            // a bool word other than 0 is read as true
            Ok(_) => rt::reach("lenient"),
            _ => rt::fail("a discriminant without arm is accepted"),
        },
        Err(_) => rt::reach("refused"),
    }
}

macro_rules! modes {
    ($f:ident; $($m:ident),*) => {{
        let n = [$(stringify!($m)),*].len() as u32;
        let k = rt::choose(n);
        let mut i = 0;
        $( if k == i { return $m::$f(); } i += 1; )*
        let _ = i;
    }};
}
fn small() {
    bounds(4, 2);
    fuel(2);
}
// plain types do not depend on the mode
#[unsafe(no_mangle)]
pub fn t01_plain() {
    small();
    modes!(plain; cc, su, kiu)
}
#[unsafe(no_mangle)]
pub fn t01_lists() {
    small();
    modes!(lists; cc, ci, su, si, iu, ic, ksi)
}
#[unsafe(no_mangle)]
pub fn t01_unions() {
    small();
    modes!(unions; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu)
}
#[unsafe(no_mangle)]
pub fn t01_opaque() {
    small();
    modes!(wires; oc, oi, ou)
}
#[unsafe(no_mangle)]
pub fn t01_negative() {
    small();
    modes!(wires; ns, ni)
}
#[unsafe(no_mangle)]
pub fn t01_dplain() {
    modes!(dec_plain; cc, su)
}
#[unsafe(no_mangle)]
pub fn t01_dlists() {
    modes!(dec_lists; cc, su, ii)
}
#[unsafe(no_mangle)]
pub fn t01_dunions() {
    modes!(dec_unions; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu)
}
#[unsafe(no_mangle)]
pub fn t01_dopaque() {
    modes!(decodes; oc, oi, ou)
}
#[unsafe(no_mangle)]
pub fn t01_dnegative() {
    modes!(decodes; ns, ni)
}
#[unsafe(no_mangle)]
pub fn t01_rec() {
    bounds(4, 2);
    fuel(3);
    modes!(wires; rc, ri, ru, rk)
}
#[unsafe(no_mangle)]
pub fn t01_drec() {
    modes!(decodes; rc, ri, ru, rk)
}
#[unsafe(no_mangle)]
pub fn t01_names() {
    small();
    modes!(wires; mc, mi, mu)
}
#[unsafe(no_mangle)]
pub fn t01_rec_deep() {
    bounds(4, 3);
    fuel(5);
    modes!(wires; rc, ri, ru, rk)
}
#[unsafe(no_mangle)]
pub fn t01_constants() {
    let k = rt::choose(3);
    let (c, d) = match k {
        0 => (cc::constants(), cc::casts()),
        1 => (ksi::constants(), ksi::casts()),
        _ => (iu::constants(), iu::casts()),
    };
    rt::check(c == [3, 3, 16, 8, -7, 0xFF_FFFF_FFFF], "value of a generated constant");
    rt::check(d == [0, 1, 4, 3, 5, 8, 10, 1], "numeric value of a generated enumerator");
    rt::check(ns::low() == -3 && ni::low() == -3, "value of a negative constant");
    rt::reach("constants");
}
#[unsafe(no_mangle)]
pub fn t02_enums() {
    modes!(no_enum; cc, su, ii, kcc, ksi, kiu, ns, ni)
}
#[unsafe(no_mangle)]
pub fn t02_unions() {
    modes!(no_arm; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu)
}
/// the default arm is written with some discriminant that no case has
fn default_written<T: Codec>(v: T, payload: &[u8], listed: &[u32]) {
    match to_bytes(&v) {
        Ok(b) => {
            rt::check(b.len() == 4 + payload.len() && &b[4..] == payload, "payload of the default arm");
            let w = ((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | b[3] as u32;
            rt::check(!listed.contains(&w), "the default arm is written with the discriminant of a case");
            rt::reach("encoded");
        }
        Err(_) => rt::fail("the default arm is refused by the encoder"),
    }
}
/// every discriminant without case is read as the default arm
fn default_read<T: Codec>(payload: &[u8], listed: &[u32], is_default: fn(&T) -> bool) {
    let mut b = rt::vec(4);
    let w = ((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | b[3] as u32;
    for l in listed {
        rt::assume(w != *l);
    }
    b.extend_from_slice(payload);
    match from_bytes::<T>(&b) {
        Ok(v) => {
            rt::check(is_default(&v), "a discriminant of the default arm is read as another arm");
            rt::reach("decoded");
        }
        Err(_) => rt::fail("a discriminant of the default arm is refused"),
    }
}
macro_rules! defaults {
    ($($m:ident),*) => {{
        let n = [$(stringify!($m)),*].len() as u32;
        let k = rt::choose(n);
        let t = rt::choose(4);
        let z = rt::vec(8);
        let num = u64::from_be_bytes([z[0], z[1], z[2], z[3], z[4], z[5], z[6], z[7]]);
        let mut i = 0;
        $(
            if k == i {
                use $m::*;
                return match t {
                    0 => default_written(UDef::Default(num), &z, &[1, 2]),
                    1 => default_written(UUns::Default, &[], &[1, 3]),
                    2 => default_read::<UDef>(&z, &[1, 2], |v| matches!(v, UDef::Default(_))),
                    _ => default_read::<UUns>(&[], &[1, 3], |v| matches!(v, UUns::Default)),
                };
            }
            i += 1;
        )*
        let _ = i;
    }};
}
#[unsafe(no_mangle)]
pub fn t01_default_complement() {
    defaults!(cc, sc, ic, kcc)
}
#[unsafe(no_mangle)]
pub fn t01_default_indexer() {
    defaults!(ci, si, ii, ksi)
}
#[unsafe(no_mangle)]
pub fn g08_values() {
    modes!(defs; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu, oc, oi, ou, ns, ni, rc, ri, ru, rk, mc, mi, mu)
}
#[unsafe(no_mangle)]
pub fn g08_other() {
    modes!(dflt_other; cc, cu, sc, su, ic, iu, kcc, kiu, oc, ou, rc, ru, rk)
}
#[unsafe(no_mangle)]
pub fn g08_alias() {
    modes!(dflt_alias; cu, su, iu, kiu)
}
#[unsafe(no_mangle)]
pub fn g08_alias_complement() {
    modes!(dflt_alias; cc, sc, ic, kcc)
}
// ------------------------------------------------------------- deeper bounds
fn large() {
    bounds(6, 3);
    fuel(3);
}
#[unsafe(no_mangle)]
pub fn t01_plain_deep() {
    large();
    modes!(plain; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu)
}
#[unsafe(no_mangle)]
pub fn t01_lists_deep() {
    bounds(4, 2);
    fuel(3);
    modes!(lists; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu)
}
#[unsafe(no_mangle)]
pub fn t01_unions_deep() {
    bounds(9, 4);
    fuel(4);
    modes!(unions; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu)
}
#[unsafe(no_mangle)]
pub fn t01_dlists_deep() {
    modes!(dec_lists; cc, ci, cu, sc, si, su, ic, ii, iu, kcc, ksi, kiu)
}
#[unsafe(no_mangle)]
pub fn t01_dplain_deep() {
    modes!(dec_plain; ci, si, ii, iu, kcc, ksi, kiu)
}
entries!(t01_names, t01_rec, t01_drec, t01_rec_deep, g08_values, g08_other, g08_alias, g08_alias_complement, t01_default_complement, t01_default_indexer, t01_plain_deep, t01_lists_deep, t01_unions_deep, t01_dlists_deep, t01_dplain_deep, t01_plain, t01_lists, t01_unions, t01_opaque, t01_negative, t01_dplain, t01_dlists, t01_dunions, t01_dopaque, t01_dnegative, t01_constants, t02_enums, t02_unions);
