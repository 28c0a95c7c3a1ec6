//! Codec harness: serde_xdr::{to_bytes, from_bytes, opaque, primitive} against the reference model.
#![allow(static_mut_refs, clippy::all)]
#[path = "../../rt/rt.rs"]
#[macro_use]
mod rt;
#[path = "../../rt/spec.rs"]
#[macro_use]
mod spec;
#[path = "../../rt/oblig.rs"]
#[macro_use]
mod oblig;
mod more;
use more::*;
use oblig::*;
use serde::de::DeserializeOwned;
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Serialize};
use serde_xdr::error::Error;
use serde_xdr::{from_bytes, to_bytes};
use spec::*;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- type corpus
spec_struct! { struct Unit1 { } }
spec_struct! { struct Scal { a: u8, b: i16, c: u32, d: i64, e: bool, f: f32, g: f64, h: char, i: u16, j: i8, k: u64, l: i32 } }
spec_struct! { struct Small { a: u8, b: i16 } }
spec_struct! { struct Mixed { id: u32, name: String, flag: Option<bool>, list: Vec<i16> } }
spec_struct! { struct Nest { s: Small, o: Option<Small>, v: Vec<Small>, e: Shape } }
spec_struct! { struct List { v: u16, next: Option<Box<List1>> } }
spec_struct! { struct List1 { v: u16, next: Option<Box<List2>> } }
spec_struct! { struct List2 { v: u16, next: Option<u8> } }
spec_enum! { enum Color { Red 0, Green 1, Blue 2 } }
spec_enum! { enum Shape { Nothing 0, Dot 1 [a: u16], Pair 2 [a: i8, b: u64], Named 3 { x: bool, y: Option<u32> }, Text 4 [s: String], Many 5 [v: Vec<u8>] } }
spec_enum! { enum Outer { A 0 [c: Color], B 1 [s: Small], C 2 [o: Option<Box<Shape>>], D 3 [t: (u8, i32)] } }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct NewT(u16);
impl Spec for NewT {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(NewT(u16::dec(i)?))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn sym() -> Self {
        NewT(u16::sym())
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct TupT(u8, String, i64);
impl Spec for TupT {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(TupT(Spec::dec(i)?, Spec::dec(i)?, Spec::dec(i)?))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn sym() -> Self {
        TupT(Spec::sym(), Spec::sym(), Spec::sym())
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct UnitS;
impl Spec for UnitS {
    fn enc(&self, _: &mut Vec<u8>) {}
    fn dec(_: &mut In) -> Result<Self, No> {
        Ok(UnitS)
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn sym() -> Self {
        UnitS
    }
}
/// raw byte strings through serialize_bytes / deserialize_bytes / deserialize_byte_buf
#[derive(Debug, Clone, PartialEq)]
struct Raw<const BUF: bool>(Vec<u8>);
impl<const B: bool> Serialize for Raw<B> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de, const B: bool> Deserialize<'de> for Raw<B> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const B: bool>;
        impl<'de, const B: bool> serde::de::Visitor<'de> for V<B> {
            type Value = Raw<B>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Raw<B>, E> {
                Ok(Raw(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Raw<B>, E> {
                Ok(Raw(v))
            }
        }
        if B { d.deserialize_byte_buf(V) } else { d.deserialize_bytes(V) }
    }
}
impl<const B: bool> Spec for Raw<B> {
    fn enc(&self, o: &mut Vec<u8>) {
        put_opaque(o, &self.0)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(Raw(i.opaque()?.to_vec()))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn sym() -> Self {
        Raw(rt::vec(len_s()))
    }
}
/// a string deserialised through deserialize_str
#[derive(Debug, Clone, PartialEq)]
struct Str(String);
impl Serialize for Str {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl<'de> Deserialize<'de> for Str {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Str;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("str")
            }
            fn visit_str<E>(self, v: &str) -> Result<Str, E> {
                Ok(Str(v.to_string()))
            }
        }
        d.deserialize_str(V)
    }
}
impl Spec for Str {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(Str(String::dec(i)?))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn sym() -> Self {
        Str(String::sym())
    }
}

// opaque adapters
#[derive(Debug, Clone, PartialEq)]
struct Fix<const N: usize> {
    a: [u8; N],
}
/// byte array of any size (serde itself only serialises arrays of up to 32 elements)
struct Arr<const N: usize>([u8; N]);
impl<const N: usize> AsRef<[u8]> for Arr<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Serialize for Arr<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<const N: usize> Serialize for Fix<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde_xdr::opaque::fixed::serialize(&Arr(self.a), s)
    }
}
impl<'de, const N: usize> Deserialize<'de> for Fix<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde_xdr::opaque::fixed::deserialize(d).map(|a| Fix { a })
    }
}
impl<const N: usize> Spec for Fix<N> {
    fn enc(&self, o: &mut Vec<u8>) {
        put_fixed(o, &self.a)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let mut a = [0u8; N];
        a.copy_from_slice(i.take(N)?);
        i.take((4 - N % 4) % 4)?;
        Ok(Fix { a })
    }
    fn same(&self, o: &Self) -> bool {
        self.a == o.a
    }
    fn sym() -> Self {
        Fix { a: rt::arr() }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Var {
    #[serde(with = "serde_xdr::opaque::variable")]
    a: Vec<u8>,
}
impl Spec for Var {
    fn enc(&self, o: &mut Vec<u8>) {
        put_opaque(o, &self.a)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(Var { a: i.opaque()?.to_vec() })
    }
    fn same(&self, o: &Self) -> bool {
        self.a == o.a
    }
    fn sym() -> Self {
        Var { a: rt::vec(len_s()) }
    }
}
impl Spec for serde_xdr::opaque::VariableArray {
    fn enc(&self, o: &mut Vec<u8>) {
        put_opaque(o, &self.data)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(Self { data: i.opaque()?.to_vec() })
    }
    fn same(&self, o: &Self) -> bool {
        self.data == o.data
    }
    fn sym() -> Self {
        Self { data: rt::vec(len_s()) }
    }
}
type VA = serde_xdr::opaque::VariableArray;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Opq {
    t: u16,
    #[serde(with = "serde_xdr::opaque::fixed")]
    f: [u8; 6],
    #[serde(with = "serde_xdr::opaque::variable")]
    v: Vec<u8>,
    l: Vec<VA>,
    z: u8,
}
impl Spec for Opq {
    fn enc(&self, o: &mut Vec<u8>) {
        self.t.enc(o);
        put_fixed(o, &self.f);
        put_opaque(o, &self.v);
        self.l.enc(o);
        self.z.enc(o);
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let t = u16::dec(i)?;
        let f = Fix::<6>::dec(i)?.a;
        let v = Var::dec(i)?.a;
        Ok(Opq { t, f, v, l: Spec::dec(i)?, z: u8::dec(i)? })
    }
    fn same(&self, o: &Self) -> bool {
        self.t == o.t && self.f == o.f && self.v == o.v && self.l.same(&o.l) && self.z == o.z
    }
    fn sym() -> Self {
        Opq { t: Spec::sym(), f: rt::arr(), v: rt::vec(len_s()), l: Spec::sym(), z: Spec::sym() }
    }
}

// signed32
#[derive(Debug, Clone, PartialEq)]
struct Code(i32);
impl AsRef<i32> for Code {
    fn as_ref(&self) -> &i32 {
        &self.0
    }
}
impl TryFrom<i32> for Code {
    type Error = ();
    fn try_from(v: i32) -> Result<Self, ()> {
        // an arbitrary accepted set with negative members
        if v == -7 || v == 0 || (v > 41 && v < 50) || v == i32::MAX || v == i32::MIN { Ok(Code(v)) } else { Err(()) }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct S32 {
    a: u8,
    #[serde(with = "serde_xdr::primitive::signed32")]
    c: Code,
    z: u16,
}
impl Spec for S32 {
    fn enc(&self, o: &mut Vec<u8>) {
        self.a.enc(o);
        put_w(o, self.c.0 as u32);
        self.z.enc(o);
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let a = u8::dec(i)?;
        let c = Code::try_from(i.w()? as i32).map_err(|_| No::Bad)?;
        Ok(S32 { a, c, z: u16::dec(i)? })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn sym() -> Self {
        let v = rt::u32() as i32;
        rt::assume(Code::try_from(v).is_ok());
        S32 { a: Spec::sym(), c: Code(v), z: Spec::sym() }
    }
}

// ---------------------------------------------------------------- C01 scalars
#[unsafe(no_mangle)]
pub fn c01_wire() {
    group!(wire; bool, i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, char, (), UnitS, Scal)
}
#[unsafe(no_mangle)]
pub fn c01_unwire() {
    group!(unwire; bool, i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, char, (), UnitS, Scal)
}

// ---------------------------------------------------------------- C02 strings and byte strings
#[unsafe(no_mangle)]
pub fn c02_wire() {
    bounds(9, 2);
    group!(wire; Raw<false>, String, Str, (u8, String, u16), Vec<String>, (Raw<true>, Raw<false>, u8))
}
#[unsafe(no_mangle)]
pub fn c02_unwire() {
    bounds(9, 2);
    group!(unwire; Raw<false>, Raw<true>, String, Str, (u8, Str, u16), (Raw<true>, Raw<false>, u8))
}
/// every length 0..=N with fully symbolic contents (raw) or ASCII contents (text)
fn long(n: usize, which: u32) {
    let mut b = vec![];
    match which {
        0 => {
            let v = Raw::<false>(rt::vec(n));
            v.enc(&mut b);
            match to_bytes(&v) {
                Ok(g) => rt::check(g == b, "long byte string wire"),
                Err(_) => rt::fail("long byte string refused"),
            }
        }
        1 => {
            let s = rt::vec(n);
            for x in &s {
                rt::assume(*x < 0x80);
            }
            let v = unsafe { String::from_utf8_unchecked(s) };
            v.enc(&mut b);
            match to_bytes(&v) {
                Ok(g) => rt::check(g == b, "long string wire"),
                Err(_) => rt::fail("long string refused"),
            }
        }
        2 => {
            let v = rt::vec(n);
            put_opaque(&mut b, &v);
            put_w(&mut b, 0xA5);
            match from_bytes::<(Raw<true>, u32)>(&b) {
                Ok((r, t)) => {
                    rt::check(r.0 == v, "long byte string decode");
                    rt::check(t == 0xA5, "value after a long byte string");
                }
                Err(_) => rt::fail("long byte string not decoded"),
            }
        }
        _ => {
            let s = rt::vec(n);
            for x in &s {
                rt::assume(*x < 0x80);
            }
            put_opaque(&mut b, &s);
            put_w(&mut b, 0x5A);
            match from_bytes::<(String, u32)>(&b) {
                Ok((r, t)) => {
                    rt::check(r.as_bytes() == &s[..], "long string decode");
                    rt::check(t == 0x5A, "value after a long string");
                }
                Err(_) => rt::fail("long string not decoded"),
            }
        }
    }
    rt::reach("long");
}
const EDGE: [usize; 12] = [127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 1027];
#[unsafe(no_mangle)]
pub fn c02_long() {
    let k = rt::choose(4);
    let n = rt::upto(41 + EDGE.len());
    long(if n < 41 { n } else { EDGE[n - 41] }, k)
}
#[unsafe(no_mangle)]
pub fn c02_deep() {
    let k = rt::choose(4);
    let n = rt::upto(300 + 9);
    long(if n < 300 { n } else { [2047, 2048, 4095, 4096, 4097, 4098, 4099, 4100, 4103][n - 300] }, k)
}

// ---------------------------------------------------------------- C03 composites
#[unsafe(no_mangle)]
pub fn c03_wire() {
    bounds(3, 3);
    group!(wire; Option<u32>, Option<Option<bool>>, Vec<u16>, Vec<Vec<i8>>, (u8, i64), (bool, char, u16, i32), [u16; 3], [Option<u8>; 2],
        Small, Mixed, NewT, TupT, Unit1, Color, Shape, Outer, List, Box<i64>, Vec<Color>, Option<Shape>, (Color, Small, Color), Option<Vec<Option<i32>>>, Nest)
}
#[unsafe(no_mangle)]
pub fn c03_map() {
    bounds(2, 2);
    group!(wire; BTreeMap<u32, u16>)
}
#[unsafe(no_mangle)]
pub fn c03_unwire() {
    bounds(3, 3);
    group!(unwire; Option<u32>, Option<Option<bool>>, Vec<u16>, Vec<Vec<i8>>, (u8, i64), (bool, char, u16, i32), [u16; 3], [Option<u8>; 2],
        Small, Mixed, NewT, TupT, Unit1, Color, Shape, Outer, List, Box<i64>, Vec<Color>, Option<Shape>, (Color, Small, Color), Option<Vec<Option<i32>>>, Nest, BTreeMap<u32, u16>)
}
#[unsafe(no_mangle)]
pub fn c03_longseq() {
    let n = [0usize, 1, 2, 5, 16, 17, 63, 64, 65, 100, 255, 256, 257][rt::upto(13)];
    let v: Vec<u16> = (0..n).map(|_| rt::u16()).collect();
    let mut b = vec![];
    v.enc(&mut b);
    match to_bytes(&v) {
        Ok(g) => rt::check(g == b, "long sequence wire"),
        Err(_) => rt::fail("long sequence refused"),
    }
    match from_bytes::<Vec<u16>>(&b) {
        Ok(g) => rt::check(g == v, "long sequence decode"),
        Err(_) => rt::fail("long sequence not decoded"),
    }
    rt::reach("longseq");
}

// ---------------------------------------------------------------- C04 round trip
#[unsafe(no_mangle)]
pub fn c04_round() {
    bounds(4, 3);
    group!(round; bool, i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, char, (), UnitS, Scal, String, Raw<true>, Raw<false>,
        Option<u32>, Option<Option<bool>>, Vec<u16>, Vec<Vec<i8>>, (u8, i64), [u16; 3], Small, Mixed, NewT, TupT, Unit1, Color, Shape, Outer, List,
        Vec<Color>, Option<Shape>, Option<Vec<Option<i32>>>, Fix<5>, Var, VA, Vec<VA>, Opq, S32, Nest, Vec<String>, BTreeMap<u32, u16>, Vec<f64>, [f32; 2])
}
#[unsafe(no_mangle)]
pub fn c04_deep() {
    bounds(6, 4);
    group!(round; Mixed, Shape, Outer, Nest, Opq, Vec<String>, (Mixed, Small), Vec<Shape>, (Opq, Color))
}

// ---------------------------------------------------------------- C05 totality / C07 faithful
macro_rules! any_types {
    ($f:ident) => {
        group_n!($f; bool: (6, 0), i8: (6, 0), i16: (6, 0), i32: (6, 0), i64: (10, 0), u8: (6, 0), u16: (6, 0), u32: (6, 0), u64: (10, 0), f32: (6, 0), f64: (10, 0), char: (6, 0), (): (3, 0), UnitS: (2, 0),
            String: (12, 1), Str: (12, 1), Raw<true>: (14, 1), Raw<false>: (14, 1), Option<u32>: (10, 0), Option<Option<bool>>: (13, 0), Vec<u16>: (17, 1), Vec<Vec<i8>>: (20, 3), (u8, i64): (14, 0),
            [u16; 3]: (13, 0), Small: (10, 0), NewT: (6, 0), Unit1: (2, 0), Color: (6, 0), Outer: (20, 0), Vec<Color>: (13, 1), Option<Vec<Option<i32>>>: (20, 2), List: (17, 0),
            Fix<0>: (2, 0), Fix<1>: (6, 0), Fix<5>: (10, 0), Fix<8>: (10, 0), Var: (14, 1), VA: (14, 1), Vec<VA>: (20, 3), S32: (14, 0), BTreeMap<u32, u16>: (21, 1), (Str, u8): (14, 1), (Raw<true>, u8): (14, 1), (Var, u8): (14, 1))
    };
}
#[unsafe(no_mangle)]
pub fn c05_any() {
    any_types!(decode_tot)
}
#[unsafe(no_mangle)]
pub fn c07_any() {
    any_types!(decode_eq)
}
#[unsafe(no_mangle)]
pub fn c05_big() {
    group_n!(decode_tot; Mixed: (26, 2), Shape: (20, 2), TupT: (24, 2), Nest: (30, 8), Opq: (36, 8), Vec<String>: (20, 3), Scal: (64, 0))
}
#[unsafe(no_mangle)]
pub fn c07_big() {
    group_n!(decode_eq; Mixed: (22, 2), Shape: (17, 2), TupT: (21, 2), Nest: (28, 8), Opq: (32, 8), Vec<String>: (17, 3), Scal: (64, 0))
}
#[unsafe(no_mangle)]
pub fn c07_faithful() {
    group_n!(faithful; i8: (4, 0), u16: (4, 0), bool: (4, 0), char: (4, 0), i64: (8, 0), String: (12, 1), Raw<true>: (12, 1), Option<u32>: (8, 0), Vec<u16>: (16, 1), Vec<Vec<i8>>: (16, 3), Small: (8, 0), Color: (4, 0), Outer: (16, 0),
        Fix<5>: (8, 0), Var: (12, 1), Vec<VA>: (16, 3), S32: (12, 0), Option<Option<bool>>: (12, 0))
}
#[unsafe(no_mangle)]
pub fn c05_deep() {
    group_n!(decode_tot; Mixed: (36, 2), Shape: (28, 2), TupT: (32, 2), Nest: (44, 8), Opq: (48, 8), Vec<String>: (28, 3), Outer: (32, 0), Vec<Vec<i8>>: (40, 3), Vec<Shape>: (28, 1), List: (40, 0))
}
#[unsafe(no_mangle)]
pub fn c07_deep() {
    group_n!(decode_eq; Mixed: (30, 2), Shape: (24, 2), TupT: (28, 2), Nest: (36, 8), Opq: (40, 8), Vec<String>: (24, 3), Outer: (28, 0), Vec<Vec<i8>>: (32, 3), Vec<Shape>: (20, 1), List: (32, 0))
}
/// textual content: every UTF-8 defect is refused, every valid text accepted
#[unsafe(no_mangle)]
pub fn c07_text() {
    let n = rt::upto(9);
    let v = rt::vec(n);
    let mut b = vec![];
    put_opaque(&mut b, &v);
    let ok = utf8_ok(&v);
    match from_bytes::<String>(&b) {
        Ok(s) => {
            rt::check(ok, "invalid UTF-8 accepted");
            rt::check(s.as_bytes() == &v[..], "text altered");
            rt::reach("valid");
        }
        Err(Error::Encoding(_)) => {
            rt::check(!ok, "valid UTF-8 refused");
            rt::reach("invalid");
        }
        Err(_) => rt::fail("text error of another kind"),
    }
}

/// run without the engine's summary of core::str::from_utf8: validates that summary
#[unsafe(no_mangle)]
pub fn c07_utf8_summary() {
    let n = rt::upto(7);
    let v = rt::vec(n);
    let ok = utf8_ok(&v);
    match std::str::from_utf8(&v) {
        Ok(_) => {
            rt::check(ok, "automaton refuses valid text");
            rt::reach("valid");
        }
        Err(_) => {
            rt::check(!ok, "automaton accepts invalid text");
            rt::reach("invalid");
        }
    }
}
// ---------------------------------------------------------------- C06 framing
#[unsafe(no_mangle)]
pub fn c06_framing() {
    bounds(5, 2);
    group!(framing; bool, i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, char, (), Scal, String, Str, Raw<true>, Raw<false>, Option<u32>, Vec<u16>, Vec<Vec<i8>>,
        (u8, i64), [u16; 3], Small, Mixed, NewT, TupT, Color, Shape, Outer, List, Fix<1>, Fix<3>, Fix<4>, Fix<6>, Var, VA, Vec<VA>, Opq, S32, Vec<String>, BTreeMap<u32, u16>)
}

// ---------------------------------------------------------------- C08 unrepresentable requests
struct NoLenSeq;
impl Serialize for NoLenSeq {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(None)?;
        q.serialize_element(&1u32)?;
        q.end()
    }
}
struct NoLenMap;
impl Serialize for NoLenMap {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_map(None)?;
        q.serialize_entry(&1u32, &2u32)?;
        q.end()
    }
}
struct AnyV;
impl<'de> Deserialize<'de> for AnyV {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(serde::de::IgnoredAny)?;
        Ok(AnyV)
    }
}
#[unsafe(no_mangle)]
pub fn c08_unrepresentable() {
    let k = rt::choose(8);
    let bad = match k {
        0 => to_bytes(&NoLenSeq).is_err(),
        1 => to_bytes(&NoLenMap).is_err(),
        2 => to_bytes(&(u64::sym() as u128)).is_err(),
        3 => to_bytes(&(i64::sym() as i128)).is_err(),
        4 => {
            let n = rt::upto(13);
            let b = rt::vec(n);
            from_bytes::<AnyV>(&b).is_err()
        }
        5 => {
            let n = rt::upto(13);
            let b = rt::vec(n);
            from_bytes::<serde::de::IgnoredAny>(&b).is_err()
        }
        6 => {
            let n = rt::upto(17);
            let b = rt::vec(n);
            from_bytes::<u128>(&b).is_err()
        }
        _ => {
            let n = rt::upto(17);
            let b = rt::vec(n);
            from_bytes::<i128>(&b).is_err()
        }
    };
    rt::check(bad, "request without an XDR representation succeeded");
    rt::reach("refused");
}

// ---------------------------------------------------------------- C09 opaque adapters
#[unsafe(no_mangle)]
pub fn c09_fixed() {
    let d = rt::choose(2);
    macro_rules! each { ($($n:literal),*) => {{
        let k = rt::choose([$($n),*].len() as u32);
        let mut i = 0;
        $( if k == i { return if d == 0 { wire::<Fix<$n>>() } else { unwire::<Fix<$n>>() }; } i += 1; )*
        let _ = i;
    }} }
    each!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 130, 255, 256, 257)
}
#[unsafe(no_mangle)]
pub fn c09_variable() {
    bounds(40, 2);
    if rt::choose(2) == 0 { group!(wire; Var, VA) } else { group!(unwire; Var, VA) }
}
#[unsafe(no_mangle)]
pub fn c09_mixed() {
    bounds(5, 2);
    if rt::choose(2) == 0 { group!(wire; Opq, Vec<VA>, Option<VA>, (Var, Fix<3>, u8)) } else { group!(unwire; Opq, Vec<VA>, Option<VA>, (Var, Fix<3>, u8)) }
}
/// adapters agree with the codec's own byte-string encoding
#[unsafe(no_mangle)]
pub fn c09_same_as_bytes() {
    let n = rt::upto(70);
    let v = rt::vec(n);
    let a = to_bytes(&Var { a: v.clone() });
    let b = to_bytes(&Raw::<true>(v.clone()));
    let c = to_bytes(&VA { data: v });
    match (a, b, c) {
        (Ok(a), Ok(b), Ok(c)) => {
            rt::check(a == b, "adapter and byte string encode differently");
            rt::check(a == c, "adapter and wrapper encode differently");
            rt::reach("same");
        }
        _ => rt::fail("adapter refused"),
    }
}
#[unsafe(no_mangle)]
pub fn c09_long() {
    let n = [100usize, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 4098, 4099][rt::upto(12)];
    let v = rt::vec(n);
    let mut b = vec![];
    put_opaque(&mut b, &v);
    match to_bytes(&Var { a: v.clone() }) {
        Ok(g) => rt::check(g == b, "long variable opaque wire"),
        Err(_) => rt::fail("long variable opaque refused"),
    }
    match from_bytes::<Var>(&b) {
        Ok(g) => rt::check(g.a == v, "long variable opaque decode"),
        Err(_) => rt::fail("long variable opaque not decoded"),
    }
    rt::reach("long");
}
#[unsafe(no_mangle)]
pub fn c09_decode() {
    group_n!(decode_eq; Fix<0>: (3, 0), Fix<1>: (8, 0), Fix<2>: (6, 0), Fix<3>: (9, 0), Fix<4>: (9, 0), Fix<7>: (12, 0), Fix<9>: (14, 0), Var: (17, 1), VA: (17, 1), Vec<VA>: (24, 3), (Var, u8): (18, 1), (Fix<3>, u8): (12, 0), Option<VA>: (18, 2))
}

// ---------------------------------------------------------------- C10 signed32
#[unsafe(no_mangle)]
pub fn c10_signed() {
    match rt::choose(4) {
        0 => wire::<S32>(),
        1 => unwire::<S32>(),
        2 => decode_eq::<S32>((14, 0)),
        _ => {
            // every i32 value, not only the accepted ones, is encoded as its two's complement word
            let v = rt::u32() as i32;
            match to_bytes(&S32 { a: 0, c: Code(v), z: 0 }) {
                Ok(b) => {
                    let mut w = vec![];
                    put_w(&mut w, 0);
                    put_w(&mut w, v as u32);
                    put_w(&mut w, 0);
                    rt::check(b == w, "signed word");
                    rt::reach("encoded");
                }
                Err(_) => rt::fail("signed word refused"),
            }
        }
    }
}

// ---------------------------------------------------------------- C11 counts and discriminants
struct Claim(usize, bool);
impl Serialize for Claim {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1 { SerializeSeq::end(s.serialize_seq(Some(self.0))?) } else { SerializeMap::end(s.serialize_map(Some(self.0))?) }
    }
}
struct Var0(u32, u32);
impl Serialize for Var0 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeStructVariant, SerializeTupleVariant};
        match self.1 {
            0 => s.serialize_unit_variant("E", self.0, "V"),
            1 => s.serialize_newtype_variant("E", self.0, "V", &7u32),
            2 => {
                let mut t = s.serialize_tuple_variant("E", self.0, "V", 1)?;
                t.serialize_field(&7u32)?;
                t.end()
            }
            _ => {
                let mut t = s.serialize_struct_variant("E", self.0, "V", 1)?;
                t.serialize_field("f", &7u32)?;
                t.end()
            }
        }
    }
}
#[unsafe(no_mangle)]
pub fn c11_counts() {
    let n = rt::u64() as usize;
    let seq = rt::choose(2) == 0;
    match to_bytes(&Claim(n, seq)) {
        Ok(b) => {
            rt::check(n <= u32::MAX as usize, "count above 2^32-1 encoded");
            let mut w = vec![];
            put_w(&mut w, n as u32);
            rt::check(b == w, "count word");
            rt::reach("ok");
        }
        Err(_) => {
            rt::check(n > u32::MAX as usize, "representable count refused");
            rt::reach("refused");
        }
    }
}
#[unsafe(no_mangle)]
pub fn c11_variants() {
    let i = rt::u32();
    let k = rt::choose(4);
    match to_bytes(&Var0(i, k)) {
        Ok(b) => {
            rt::check(i <= i32::MAX as u32, "discriminant above 2^31-1 encoded");
            let mut w = vec![];
            put_w(&mut w, i);
            if k > 0 {
                put_w(&mut w, 7);
            }
            rt::check(b == w, "discriminant word");
            rt::reach("ok");
        }
        Err(_) => {
            rt::check(i > i32::MAX as u32, "representable discriminant refused");
            rt::reach("refused");
        }
    }
}
#[unsafe(no_mangle)]
pub fn c11_bytes() {
    // lengths around 2^32: contents are zero, allocated lazily
    let n = [u32::MAX as usize, 1usize << 32, (1usize << 32) + 1, (1usize << 32) + 4][1 + rt::upto(3)];
    let v = Raw::<true>(vec![0u8; n]);
    match to_bytes(&v) {
        Ok(_) => rt::fail("byte string longer than 2^32-1 encoded"),
        Err(_) => rt::reach("refused"),
    }
}
#[unsafe(no_mangle)]
pub fn c11_decode() {
    // discriminants on the wire: every 32-bit word
    let w = rt::u32();
    let mut b = vec![];
    put_w(&mut b, w);
    match from_bytes::<Color>(&b) {
        Ok(c) => {
            rt::check(w < 3, "unknown discriminant accepted");
            rt::check(c as u32 == w, "discriminant mapped to another member");
            rt::reach("ok");
        }
        Err(_) => {
            rt::check(w >= 3, "known discriminant refused");
            rt::reach("refused");
        }
    }
}

// ---------------------------------------------------------------- C12 bounded allocation
fn bounded<T: Codec>(n: (usize, u32)) {
    let k = rt::upto(n.0 / 4 + 1) * 4;
    let b = msg(k, n.1);
    rt::alloc_limit(2 << 20);
    match from_bytes::<T>(&b) {
        Ok(_) => rt::reach("accepted"),
        Err(_) => rt::reach("rejected"),
    }
}
#[unsafe(no_mangle)]
pub fn c12_alloc() {
    group_n!(bounded; String: (12, 1), Raw<true>: (12, 1), Raw<false>: (12, 1), Vec<u8>: (12, 1), Vec<u64>: (20, 1), Vec<String>: (16, 3), Vec<Vec<u16>>: (20, 3), Vec<[u64; 16]>: (20, 1), Var: (16, 1), VA: (16, 1), Vec<VA>: (20, 3), Opq: (36, 8),
        Option<Vec<Option<i32>>>: (16, 2), Mixed: (24, 2), Shape: (16, 2), BTreeMap<u32, u16>: (20, 1), Fix<64>: (68, 0))
}

entries!(
    c01_wire, c01_unwire, c02_wire, c02_unwire, c02_long, c02_deep, c03_wire, c03_map, c03_unwire, c03_longseq, c04_round, c04_deep, c05_any, c05_big, c05_deep, c06_framing, c07_any, c07_big,
    c07_faithful, c07_deep, c07_text, c07_utf8_summary, c08_unrepresentable, c09_fixed, c09_variable, c09_mixed, c09_same_as_bytes, c09_long, c09_decode, c10_signed, c11_counts, c11_variants, c11_bytes, c11_decode,
    c12_alloc, c05_more, c02_xl, c02_api, c03_more_wire, c03_more_unwire, c03_xl, c03_longmap, c03_custom, c04_more, c06_more, c07_more, c08_more, c08_fail_ser, c08_fail_de, c09_xl, c11_index, c11_hint, c12_more
);
