//! More types: what serde itself and its derive attributes produce, elements without content,
//! very long values, errors in every position.
use super::*;
use serde::de::{self, EnumAccess, VariantAccess, Visitor};
use serde::ser::{SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeSet, LinkedList, VecDeque};
use std::fmt;
use std::num::{NonZeroI32, NonZeroU16, Wrapping};
use std::ops::{Bound, Range};
use std::time::Duration;

// ---------------------------------------------------------------- types of the standard library
/// value with the wire form and the equality of another type
macro_rules! like {
    ($([$($g:tt)*])? $t:ty, $as:ty, |$v:ident| $to:expr, |$w:ident| $from:expr) => {
        impl$(<$($g)*>)? Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) {
                let $v = self;
                let x: $as = $to;
                x.enc(o)
            }
            fn dec(i: &mut In) -> Result<Self, No> {
                let $w = <$as as Spec>::dec(i)?;
                $from
            }
            fn same(&self, o: &Self) -> bool {
                let (mut a, mut b) = (vec![], vec![]);
                self.enc(&mut a);
                o.enc(&mut b);
                a == b
            }
            fn sym() -> Self {
                let $w = <$as as Spec>::sym();
                let r: Result<Self, No> = $from;
                rt::assume(r.is_ok());
                match r {
                    Ok(v) => v,
                    Err(_) => loop {},
                }
            }
        }
    };
}
like!(BTreeSet<u16>, Vec<u16>, |v| v.iter().copied().collect(), |w| Ok(w.into_iter().collect()));
like!(VecDeque<u16>, Vec<u16>, |v| v.iter().copied().collect(), |w| Ok(w.into_iter().collect()));
like!(VecDeque<u64>, Vec<u64>, |v| v.iter().copied().collect(), |w| Ok(w.into_iter().collect()));
like!(LinkedList<i8>, Vec<i8>, |v| v.iter().copied().collect(), |w| Ok(w.into_iter().collect()));
like!(Box<str>, String, |v| v.to_string(), |w| Ok(w.into_boxed_str()));
like!(Box<[u16]>, Vec<u16>, |v| v.to_vec(), |w| Ok(w.into_boxed_slice()));
like!(Box<[u64]>, Vec<u64>, |v| v.to_vec(), |w| Ok(w.into_boxed_slice()));
like!(Cow<'static, str>, String, |v| v.to_string(), |w| Ok(Cow::Owned(w)));
like!(NonZeroU16, u16, |v| v.get(), |w| NonZeroU16::new(w).ok_or(No::Bad));
like!(NonZeroI32, i32, |v| v.get(), |w| NonZeroI32::new(w).ok_or(No::Bad));
like!(Wrapping<i16>, i16, |v| v.0, |w| Ok(Wrapping(w)));
like!(Reverse<u32>, u32, |v| v.0, |w| Ok(Reverse(w)));
like!(std::marker::PhantomData<u8>, (), |_v| (), |_w| Ok(std::marker::PhantomData));
like!(Range<i32>, (i32, i32), |v| (v.start, v.end), |w| Ok(w.0..w.1));
like!(Duration, (u64, u32), |v| (v.as_secs(), v.subsec_nanos()), |w| w.0.checked_add((w.1 / 1_000_000_000) as u64).map(|_| Duration::new(w.0, w.1)).ok_or(No::Bad));
like!(std::ffi::CString, Raw<true>, |v| Raw(v.as_bytes().to_vec()), |w| std::ffi::CString::new(w.0).map_err(|_| No::Bad));
like!(std::path::PathBuf, String, |v| v.to_str().unwrap_or("?").to_string(), |w| Ok(w.into()));
like!(std::sync::atomic::AtomicU32, u32, |v| v.load(std::sync::atomic::Ordering::Relaxed), |w| Ok(w.into()));
spec_enum! { enum Res { Good 0 [a: u8], Bad 1 [s: String] } }
like!(Result<u8, String>, Res, |v| match v { Ok(a) => Res::Good(*a), Err(s) => Res::Bad(s.clone()) }, |w| Ok(match w { Res::Good(a) => Ok(a), Res::Bad(s) => Err(s) }));
spec_enum! { enum Bnd { None 0, In 1 [a: u8], Ex 2 [a: u8] } }
like!(Bound<u8>, Bnd, |v| match v { Bound::Unbounded => Bnd::None, Bound::Included(a) => Bnd::In(*a), Bound::Excluded(a) => Bnd::Ex(*a) },
    |w| Ok(match w { Bnd::None => Bound::Unbounded, Bnd::In(a) => Bound::Included(a), Bnd::Ex(a) => Bound::Excluded(a) }));

// ---------------------------------------------------------------- attributes of the derive
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Attr {
    #[serde(rename = "other")]
    a: u16,
    #[serde(skip)]
    b: u8,
    #[serde(default)]
    c: i64,
    #[serde(skip)]
    d: u8,
    #[serde(alias = "f")]
    e: bool,
}
like!(Attr, (u16, i64, bool), |v| (v.a, v.c, v.e), |w| Ok(Attr { a: w.0, b: 0, c: w.1, d: 0, e: w.2 }));
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Trans {
    a: Option<u16>,
}
like!(Trans, Option<u16>, |v| v.a, |w| Ok(Trans { a: w }));
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(from = "u32", into = "u32")]
pub struct Conv(u8, u8);
impl From<u32> for Conv {
    fn from(v: u32) -> Self {
        Conv((v >> 8) as u8, v as u8)
    }
}
impl From<Conv> for u32 {
    fn from(v: Conv) -> u32 {
        (v.0 as u32) << 8 | v.1 as u32
    }
}
like!(Conv, u32, |v| u32::from(v.clone()), |w| Ok(Conv::from(w)));
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Gen<T, const N: usize> {
    t: T,
    #[serde(rename = "")]
    a: [u8; 2],
    n: (T, [u16; 1]),
}
like!(Gen<i8, 3>, (i8, [u8; 2], i8, u16), |v| (v.t, v.a, v.n.0, v.n.1[0]), |w| Ok(Gen { t: w.0, a: w.1, n: (w.2, [w.3]) }));
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Unit0 {}
like!(Unit0, (), |_v| (), |_w| Ok(Unit0 {}));
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tup0();
like!(Tup0, (), |_v| (), |_w| Ok(Tup0()));
spec_enum! { enum Zero { U 0, N 1 [a: ()], T 2 [a: (), b: UnitS], S 3 {}, F 4 { a: UnitS }, A 5 [a: [u16; 0]] } }
spec_struct! { struct Wide { a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: i16, a6: i32, a7: i64, b0: bool, b1: u8, b2: u8, b3: Option<u8>, b4: u8, b5: Color, b6: u8, b7: u8, c0: u8, c1: String, c2: u8, c3: u8, c4: u8, c5: u8, c6: u8, c7: u8, d0: (), d1: u8, d2: u8, d3: u8, d4: u8, d5: u8, d6: u8, d7: u8, e0: u8, e1: u8, e2: i16 } }
/// sixteen members
#[derive(Clone, Serialize, Deserialize)]
pub struct Tup16((u8, i8, u16, i16, u32, i32, u64, i64, bool, u8, u8, u8, u8, u8, char, u16));
like!(Tup16, (u8, i8, u16, i16, u32, (i32, u64, i64, bool, (u8, u8, u8, u8, u8, (char, u16)))), |v| {
    let t = &v.0;
    (t.0, t.1, t.2, t.3, t.4, (t.5, t.6, t.7, t.8, (t.9, t.10, t.11, t.12, t.13, (t.14, t.15))))
}, |w| {
    let (a, b, c, d, e, (f, g, h, i, (j, k, l, m, n, (o, p)))) = w;
    Ok(Tup16((a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p)))
});

// ---------------------------------------------------------------- other ways to use the interface
/// different forms depending on what the format says about itself
#[derive(Debug, Clone, PartialEq)]
pub struct Human(u16);
impl Serialize for Human {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() { s.serialize_u16(self.0) } else { s.serialize_u64(self.0 as u64) }
    }
}
impl<'de> Deserialize<'de> for Human {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if d.is_human_readable() { u16::deserialize(d).map(Human) } else { u64::deserialize(d).map(|v| Human(v as u16)) }
    }
}
like!(Human, u64, |v| v.0 as u64, |w| if w < 65536 { Ok(Human(w as u16)) } else { Err(No::Bad) });
/// text given piece by piece
struct Disp(String, u8);
impl fmt::Display for Disp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("<")?;
        f.write_str(&self.0)?;
        f.write_str(if self.1 & 1 == 1 { "yes" } else { "" })
    }
}
impl Serialize for Disp {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
/// text decoded as bytes, bytes decoded as text
struct Text(String);
impl<'de> Deserialize<'de> for Text {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Text;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("text")
            }
            fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Text, E> {
                Ok(Text(v.to_string()))
            }
            fn visit_str<E>(self, v: &str) -> Result<Text, E> {
                Ok(Text(v.to_string()))
            }
            fn visit_string<E>(self, v: String) -> Result<Text, E> {
                Ok(Text(v))
            }
        }
        d.deserialize_identifier(V)
    }
}
/// the calls of a map in different combinations
struct Pairs(Vec<(u16, String)>, u32);
impl Serialize for Pairs {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1 == 2 {
            return s.collect_map(self.0.iter().map(|(k, v)| (k, v)));
        }
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            if self.1 == 0 {
                m.serialize_key(k)?;
                m.serialize_value(v)?;
            } else {
                m.serialize_entry(k, v)?;
            }
        }
        m.end()
    }
}
/// reads a map key by key or entry by entry
struct ReadPairs<const E: bool>(Vec<(u16, String)>);
impl<'de, const E: bool> Deserialize<'de> for ReadPairs<E> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const E: bool>;
        impl<'de, const E: bool> Visitor<'de> for V<E> {
            type Value = ReadPairs<E>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("map")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<ReadPairs<E>, A::Error> {
                let mut r = vec![];
                loop {
                    if E {
                        match a.next_entry()? {
                            Some(e) => r.push(e),
                            None => break,
                        }
                    } else {
                        match a.next_key()? {
                            Some(k) => r.push((k, a.next_value()?)),
                            None => break,
                        }
                    }
                }
                // the end stays the end
                if a.next_key::<u16>()?.is_some() {
                    return Err(de::Error::custom("entry behind the end"));
                }
                Ok(ReadPairs(r))
            }
        }
        d.deserialize_map(V)
    }
}
struct ReadSeq(Vec<u16>);
impl<'de> Deserialize<'de> for ReadSeq {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = ReadSeq;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("seq")
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<ReadSeq, A::Error> {
                let mut r = vec![];
                while let Some(v) = a.next_element()? {
                    r.push(v);
                }
                if a.next_element::<u16>()?.is_some() {
                    return Err(de::Error::custom("element behind the end"));
                }
                Ok(ReadSeq(r))
            }
        }
        d.deserialize_seq(V)
    }
}
/// raw bytes that the visitor wants as text or bytes
#[unsafe(no_mangle)]
pub fn c02_api() {
    bounds(6, 2);
    match rt::choose(4) {
        0 => {
            let v = Disp(String::sym(), rt::u8());
            let mut w = vec![b'<'];
            w.extend_from_slice(v.0.as_bytes());
            if v.1 & 1 == 1 {
                w.extend_from_slice(b"yes");
            }
            let mut b = vec![];
            put_opaque(&mut b, &w);
            match to_bytes(&v) {
                Ok(g) => rt::check(g == b, "text given piece by piece"),
                Err(_) => rt::fail("text given piece by piece refused"),
            }
        }
        1 => {
            let v = String::sym();
            let mut b = vec![];
            v.enc(&mut b);
            match from_bytes::<Text>(&b) {
                Ok(t) => rt::check(t.0 == v, "text"),
                Err(_) => rt::fail("text refused"),
            }
        }
        2 => {
            let v = std::str::from_utf8(b"ab").unwrap();
            let x = (v, &b"xyz"[..], 'c');
            match to_bytes(&x) {
                Ok(g) => rt::check(g == [0, 0, 0, 2, b'a', b'b', 0, 0, 0, 0, 0, 3, 0, 0, 0, b'x', 0, 0, 0, b'y', 0, 0, 0, b'z', 0, 0, 0, b'c'], "borrowed text"),
                Err(_) => rt::fail("borrowed text refused"),
            }
        }
        _ => group!(wire; Box<str>, Cow<'static, str>, std::ffi::CString, std::path::PathBuf),
    }
    rt::reach("text");
}
#[unsafe(no_mangle)]
pub fn c03_more_wire() {
    bounds(2, 2);
    if rt::choose(2) == 0 {
        let n = len_v() + 1;
        let v: Vec<(u16, String)> = (0..n).map(|_| (u16::sym(), String::sym())).collect();
        let mut b = vec![];
        v.enc(&mut b);
        match to_bytes(&Pairs(v, rt::choose(3))) {
            Ok(g) => rt::check(g == b, "map wire"),
            Err(_) => rt::fail("map refused"),
        }
        return rt::reach("encoded");
    }
    group!(wire; Option<()>, (u32, Option<UnitS>), Vec<()>, Vec<Unit1>, [u8; 0], Option<[u16; 0]>, [UnitS; 3], Unit0, Tup0, Zero, Vec<Zero>, BTreeMap<u8, ()>, BTreeMap<(), u8>, BTreeMap<i8, Option<u8>>, BTreeMap<String, u8>, BTreeMap<u8, Vec<u8>>, Option<BTreeMap<u8, u8>>,
        BTreeSet<u16>, VecDeque<u16>, LinkedList<i8>, Box<[u16]>, NonZeroU16, NonZeroI32, Wrapping<i16>, Reverse<u32>, std::marker::PhantomData<u8>, Range<i32>, Duration, std::sync::atomic::AtomicU32,
        Result<u8, String>, Bound<u8>, Attr, Trans, Conv, Gen<i8, 3>, Wide, Tup16, (Attr, u8), Vec<Attr>, Option<Trans>)
}
#[unsafe(no_mangle)]
pub fn c03_more_unwire() {
    bounds(2, 2);
    match rt::choose(4) {
        0 => {
            let n = len_v() + 1;
            let v: Vec<(u16, String)> = (0..n).map(|_| (u16::sym(), String::sym())).collect();
            let mut b = vec![];
            v.enc(&mut b);
            let r = if rt::choose(2) == 0 { from_bytes::<ReadPairs<false>>(&b).map(|r| r.0) } else { from_bytes::<ReadPairs<true>>(&b).map(|r| r.0) };
            match r {
                Ok(r) => rt::check(r.same(&v), "map entries"),
                Err(_) => rt::fail("map not decoded"),
            }
            rt::reach("decoded")
        }
        1 => {
            let v = Vec::<u16>::sym();
            let mut b = vec![];
            (&v, 7u8).0.enc(&mut b);
            put_w(&mut b, 7);
            match from_bytes::<(ReadSeq, u8)>(&b) {
                Ok(r) => rt::check(r.0.0 == v && r.1 == 7, "sequence elements"),
                Err(_) => rt::fail("sequence not decoded"),
            }
            rt::reach("decoded")
        }
        _ => group!(unwire; Option<()>, (u32, Option<UnitS>), Vec<()>, Vec<Unit1>, [u8; 0], Option<[u16; 0]>, [UnitS; 3], Unit0, Tup0, Zero, Vec<Zero>, BTreeMap<u8, ()>, BTreeMap<(), u8>, BTreeMap<i8, Option<u8>>, BTreeMap<String, u8>, BTreeMap<u8, Vec<u8>>, Option<BTreeMap<u8, u8>>,
        BTreeSet<u16>, VecDeque<u16>, LinkedList<i8>, Box<[u16]>, NonZeroU16, NonZeroI32, Wrapping<i16>, Reverse<u32>, std::marker::PhantomData<u8>, Range<i32>, Duration, std::sync::atomic::AtomicU32,
        Result<u8, String>, Bound<u8>, Attr, Trans, Conv, Gen<i8, 3>, Wide, Tup16, (Attr, u8), Vec<Attr>, Option<Trans>),
    }
}
#[unsafe(no_mangle)]
pub fn c04_more() {
    bounds(3, 2);
    group!(round; Human, Option<()>, (u32, Option<UnitS>), Vec<()>, Vec<Unit1>, [u8; 0], Option<[u16; 0]>, Option<Fix<0>>, [UnitS; 3], Unit0, Tup0, Zero, Vec<Zero>, Option<Zero>, BTreeMap<u8, ()>, BTreeMap<(), u8>, BTreeMap<i8, Option<u8>>, BTreeMap<String, u8>, BTreeMap<u8, Vec<u8>>, Option<BTreeMap<u8, u8>>,
        BTreeSet<u16>, VecDeque<u16>, LinkedList<i8>, Box<[u16]>, NonZeroU16, NonZeroI32, Wrapping<i16>, Reverse<u32>, std::marker::PhantomData<u8>, Range<i32>, Duration, std::sync::atomic::AtomicU32,
        Result<u8, String>, Bound<u8>, Attr, Trans, Conv, Gen<i8, 3>, Wide, Tup16, (Attr, u8), Vec<Attr>, Option<Trans>, Box<str>, Cow<'static, str>, std::ffi::CString, std::path::PathBuf, Option<Option<Option<()>>>, (Option<()>, Option<u8>), Option<String>, Vec<Option<()>>,
        BTreeMap<char, bool>, Option<Color>, Vec<(u8, Option<Shape>)>, [Option<i64>; 3], Option<Box<Option<f32>>>, (char, f64, ()), Vec<Raw<true>>, Option<Raw<false>>, BTreeMap<u8, Fix<3>>)
}
#[unsafe(no_mangle)]
pub fn c06_more() {
    bounds(3, 2);
    group!(framing; Option<()>, (u32, Option<UnitS>), Vec<()>, [u8; 0], Zero, Vec<Zero>, BTreeMap<u8, ()>, BTreeMap<(), u8>, BTreeMap<i8, Option<u8>>, BTreeMap<String, u8>, BTreeMap<u8, Vec<u8>>, VecDeque<u16>, Box<[u16]>, Range<i32>,
        Result<u8, String>, Bound<u8>, Attr, Trans, Wide, Tup16, Vec<Attr>, Box<str>, Cow<'static, str>, Option<String>, Option<Raw<true>>, (String, String), (Var, String, Fix<2>), Fix<2>, Fix<5>, Fix<7>, Vec<Fix<3>>, Option<Color>, Option<Opq>, [i64; 2], Vec<bool>, UnitS)
}
macro_rules! more_types {
    ($f:ident) => {
        group_n!($f; Option<()>: (6, 0), (u32, Option<UnitS>): (9, 0), [u8; 0]: (2, 0), Zero: (12, 0), BTreeMap<i8, Option<u8>>: (17, 1), BTreeMap<u8, ()>: (13, 1), BTreeMap<String, u8>: (17, 3), VecDeque<u16>: (13, 1), Box<[u16]>: (13, 1), LinkedList<i8>: (13, 1), NonZeroU16: (6, 0), NonZeroI32: (6, 0),
        Range<i32>: (10, 0), Duration: (14, 0), Result<u8, String>: (14, 2), Bound<u8>: (10, 0), Attr: (18, 0), Trans: (10, 0), Conv: (6, 0), Tup16: (84, 0), Box<str>: (10, 1), std::ffi::CString: (10, 1), Vec<bool>: (13, 1), Option<Color>: (9, 0), (Color, Option<char>): (14, 0), Vec<char>: (13, 1))
    };
}
#[unsafe(no_mangle)]
pub fn c05_more() {
    if rt::choose(2) == 0 {
        return group_n!(decode_plain; std::path::PathBuf: (10, 1), Human: (10, 0), (Cow<'static, str>, u8): (14, 1), Vec<Tup16>: (10, 1), Vec<Gen<i8, 3>>: (13, 1), std::sync::atomic::AtomicU32: (6, 0), std::cell::RefCell<u16>: (6, 0), std::net::Ipv4Addr: (13, 1), std::net::SocketAddrV4: (8, 1), std::time::SystemTime: (14, 0),
            std::collections::BinaryHeap<u16>: (13, 1), [String; 2]: (17, 2), std::ops::RangeInclusive<u8>: (10, 0), std::ops::RangeFrom<i64>: (10, 0), (bool, char, f32, f64): (26, 0), Box<Option<Box<str>>>: (13, 2), std::num::NonZeroI64: (10, 0), std::num::Saturating<u8>: (6, 0), std::ffi::OsString: (14, 3));
    }
    more_types!(decode_tot)
}
fn decode_plain<T: serde::de::DeserializeOwned>(n: (usize, u32)) {
    let k = rt::upto(n.0 + 1);
    let b = msg(k, n.1);
    match from_bytes::<T>(&b) {
        Ok(_) => rt::reach("accepted"),
        Err(_) => rt::reach("rejected"),
    }
}
#[unsafe(no_mangle)]
pub fn c07_more() {
    more_types!(decode_eq)
}
// ---------------------------------------------------------------- very long values
const XL: [usize; 8] = [32767, 32768, 65535, 65536, 65537, 65540, 131071, 131074];
/// n bytes, arbitrary at the ends and around powers of two, otherwise fixed
fn sparse(n: usize, ascii: bool) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i % 97 + 20) as u8).collect();
    for at in [0, 1, 255, 256, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 131071, 131072, n - 4, n - 3, n - 2, n - 1] {
        if at < n {
            let x = rt::u8();
            if ascii {
                rt::assume(x < 0x80);
            }
            v[at] = x;
        }
    }
    v
}
#[unsafe(no_mangle)]
pub fn c02_xl() {
    let n = XL[rt::upto(XL.len())];
    let k = rt::choose(4);
    let v = sparse(n, k % 2 == 1);
    let mut b = vec![];
    put_opaque(&mut b, &v);
    if k < 2 {
        let r = if k == 0 { to_bytes(&Raw::<false>(v)) } else { to_bytes(&unsafe { String::from_utf8_unchecked(v) }) };
        match r {
            Ok(g) => rt::check(g == b, "very long bytes wire"),
            Err(_) => rt::fail("very long bytes refused"),
        }
    } else {
        put_w(&mut b, 0xA5);
        let r = if k == 2 { from_bytes::<(Raw<false>, u32)>(&b).map(|r| (r.0.0, r.1)) } else { from_bytes::<(String, u32)>(&b).map(|r| (r.0.into_bytes(), r.1)) };
        match r {
            Ok((r, t)) => {
                rt::check(r == v, "very long bytes decode");
                rt::check(t == 0xA5, "value after very long bytes");
            }
            Err(_) => rt::fail("very long bytes not decoded"),
        }
    }
    rt::reach("long");
}
#[unsafe(no_mangle)]
pub fn c09_xl() {
    let n = XL[rt::upto(XL.len())];
    let v = sparse(n, false);
    let mut b = vec![];
    put_opaque(&mut b, &v);
    if rt::choose(2) == 0 {
        match to_bytes(&Var { a: v }) {
            Ok(g) => rt::check(g == b, "very long variable opaque wire"),
            Err(_) => rt::fail("very long variable opaque refused"),
        }
    } else {
        put_w(&mut b, 0xA5);
        match from_bytes::<(VA, u32)>(&b) {
            Ok((g, t)) => {
                rt::check(g.data == v, "very long variable opaque decode");
                rt::check(t == 0xA5, "value after very long variable opaque");
            }
            Err(_) => rt::fail("very long variable opaque not decoded"),
        }
    }
    rt::reach("long");
}
#[unsafe(no_mangle)]
pub fn c03_xl() {
    let n = [4096usize, 32768, 65535, 65536, 65537][rt::upto(5)];
    let mut v: Vec<u16> = (0..n).map(|i| i as u16).collect();
    for at in [0, 255, 256, 4095, 32767, n - 2, n - 1] {
        if at < n {
            v[at] = rt::u16();
        }
    }
    let mut b = vec![];
    v.enc(&mut b);
    match to_bytes(&v) {
        Ok(g) => rt::check(g == b, "very long sequence wire"),
        Err(_) => rt::fail("very long sequence refused"),
    }
    put_w(&mut b, 9);
    match from_bytes::<(Vec<u16>, u8)>(&b) {
        Ok(g) => rt::check(g.0 == v && g.1 == 9, "very long sequence decode"),
        Err(_) => rt::fail("very long sequence not decoded"),
    }
    rt::reach("longseq");
}
#[unsafe(no_mangle)]
pub fn c03_longmap() {
    let n = [4usize, 15, 16, 17, 64, 255, 256, 257][rt::upto(8)];
    let m: BTreeMap<u16, u8> = (0..n).map(|i| (i as u16 * 3, rt::u8())).collect();
    let mut b = vec![];
    m.enc(&mut b);
    match to_bytes(&m) {
        Ok(g) => rt::check(g == b, "long map wire"),
        Err(_) => rt::fail("long map refused"),
    }
    match from_bytes::<BTreeMap<u16, u8>>(&b) {
        Ok(g) => rt::check(g.same(&m), "long map decode"),
        Err(_) => rt::fail("long map not decoded"),
    }
    rt::reach("longmap");
}

// ---------------------------------------------------------------- errors
static mut LEFT: u32 = 0;
/// fails the given time
struct FailSer;
impl Serialize for FailSer {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        unsafe {
            if LEFT == 0 {
                LEFT = 1000;
                return Err(serde::ser::Error::custom("no"));
            }
            LEFT -= 1;
        }
        s.serialize_u32(5)
    }
}
impl PartialEq for FailSer {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
/// every composite, each with three elements that may fail
struct Comp(u32);
impl Serialize for Comp {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let f = &FailSer;
        match self.0 {
            0 => {
                let mut q = s.serialize_seq(Some(3))?;
                for _ in 0..3 {
                    q.serialize_element(f)?;
                }
                q.end()
            }
            1 => {
                let mut q = s.serialize_tuple(3)?;
                for _ in 0..3 {
                    q.serialize_element(f)?;
                }
                q.end()
            }
            2 => {
                let mut q = s.serialize_tuple_struct("T", 3)?;
                for _ in 0..3 {
                    q.serialize_field(f)?;
                }
                q.end()
            }
            3 => {
                let mut q = s.serialize_tuple_variant("T", 1, "V", 3)?;
                for _ in 0..3 {
                    q.serialize_field(f)?;
                }
                q.end()
            }
            4 => {
                let mut q = s.serialize_struct("T", 3)?;
                q.serialize_field("a", f)?;
                q.serialize_field("b", f)?;
                q.serialize_field("c", f)?;
                q.end()
            }
            5 => {
                let mut q = s.serialize_struct_variant("T", 1, "V", 3)?;
                q.serialize_field("a", f)?;
                q.serialize_field("b", f)?;
                q.serialize_field("c", f)?;
                q.end()
            }
            6 => {
                let mut q = s.serialize_map(Some(2))?;
                q.serialize_key(f)?;
                q.serialize_value(f)?;
                q.serialize_key(f)?;
                q.serialize_value(&1u8)?;
                q.end()
            }
            7 => {
                let mut q = s.serialize_map(Some(2))?;
                q.serialize_entry(&1u8, f)?;
                q.serialize_entry(f, &1u8)?;
                q.serialize_entry(f, &1u8)?;
                q.end()
            }
            8 => s.collect_seq([f, f, f]),
            9 => s.collect_map([(f, f), (f, &FailSer)]),
            10 => s.serialize_some(&(f, f, f)),
            11 => s.serialize_newtype_struct("T", &(f, f, f)),
            12 => s.serialize_newtype_variant("T", 1, "V", &(f, f, f)),
            13 => s.serialize_newtype_struct("T", &(Some(f), [Some(f)], f)),
            _ => s.serialize_newtype_variant("T", 0, "V", &Some((f, vec![(1u8, f)], Ok::<_, ()>(f)))),
        }
    }
}
#[unsafe(no_mangle)]
pub fn c08_fail_ser() {
    let k = rt::choose(15);
    let at = rt::choose(5);
    unsafe { LEFT = at };
    let x = (rt::u8(), Comp(k), rt::u16());
    match to_bytes(&x) {
        Ok(_) => {
            rt::check(at >= 3 + (k == 9) as u32, "error of an element swallowed");
            rt::reach("encoded")
        }
        Err(Error::Custom(m)) => {
            rt::check(at < 3 + (k == 9) as u32, "error without a failing element");
            rt::check(m == "no", "error of an element replaced");
            rt::reach("refused")
        }
        Err(_) => rt::fail("error of an element replaced"),
    }
}
static mut ODD: u32 = 0;
/// refuses one word
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct FailDe(u32);
impl<'de> Deserialize<'de> for FailDe {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = u32::deserialize(d)?;
        if v == unsafe { ODD } { Err(de::Error::custom("no")) } else { Ok(FailDe(v)) }
    }
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct FS {
    a: FailDe,
    b: FailDe,
    c: FailDe,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct FT(FailDe, FailDe, FailDe);
#[derive(Deserialize)]
#[allow(dead_code)]
struct FN(FailDe);
#[derive(Deserialize)]
#[allow(dead_code)]
enum FE {
    N(FailDe),
    T(FailDe, FailDe),
    S { a: FailDe, b: FailDe },
}
#[unsafe(no_mangle)]
pub fn c08_fail_de() {
    let k = rt::choose(12);
    let w = [rt::u32(), rt::u32(), rt::u32()];
    unsafe { ODD = 0x1234_5678 };
    let odd = unsafe { ODD };
    let mut b = vec![];
    let mut n = 3;
    match k {
        0 | 7 => put_w(&mut b, 3),
        6 => {
            put_w(&mut b, 1);
            n = 2
        }
        1 => {
            put_w(&mut b, 0);
            n = 1
        }
        2 => {
            put_w(&mut b, 1);
            n = 2
        }
        3 => {
            put_w(&mut b, 2);
            n = 2
        }
        8 | 9 => {
            put_w(&mut b, 1);
            n = 1
        }
        11 => {
            put_w(&mut b, 1);
            put_w(&mut b, 2);
            n = 2
        }
        _ => {}
    }
    let mut any = false;
    for i in 0..n {
        put_w(&mut b, w[i]);
        any |= w[i] == odd;
    }
    let r = match k {
        0 => from_bytes::<Vec<FailDe>>(&b).map(|_| ()),
        1 | 2 | 3 => from_bytes::<FE>(&b).map(|_| ()),
        4 => from_bytes::<FS>(&b).map(|_| ()),
        5 => from_bytes::<FT>(&b).map(|_| ()),
        6 => from_bytes::<BTreeMap<FailDe, FailDe>>(&b).map(|_| ()),
        7 => from_bytes::<VecDeque<FailDe>>(&b).map(|_| ()),
        8 => from_bytes::<Option<FailDe>>(&b).map(|_| ()),
        9 => from_bytes::<Option<FN>>(&b).map(|_| ()),
        10 => from_bytes::<[FailDe; 3]>(&b).map(|_| ()),
        _ => from_bytes::<Option<Vec<(FailDe,)>>>(&b).map(|_| ()),
    };
    match r {
        Ok(()) => {
            rt::check(!any, "error of an element swallowed");
            rt::reach("accepted")
        }
        Err(Error::Custom(m)) => {
            rt::check(any, "error without a failing element");
            rt::check(m == "no", "error of an element replaced");
            rt::reach("refused")
        }
        Err(_) => rt::fail("error of an element replaced"),
    }
}
#[derive(Serialize)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    b: Inner,
}
#[derive(Serialize, Deserialize)]
struct Inner {
    x: u16,
}
#[derive(Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Unt {
    A(u8),
    B(String),
}
#[derive(Deserialize)]
#[serde(tag = "t")]
#[allow(dead_code)]
enum Int {
    A { x: u8 },
    B,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct FlatD {
    a: u8,
    #[serde(flatten)]
    b: Inner,
}
struct Filt(u8);
impl Serialize for Filt {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 & 1 == 1 { s.collect_seq([1u8, 2, 3].iter().filter(|x| **x > self.0)) } else { s.collect_map([1u8, 2, 3].iter().filter(|x| **x > self.0).map(|x| (x, x))) }
    }
}
/// requests inside of other values, and those that derive attributes make
#[unsafe(no_mangle)]
pub fn c08_more() {
    let k = rt::choose(14);
    let some = || {
        let n = rt::upto(13);
        rt::vec(n)
    };
    let bad = match k {
        0 => to_bytes(&(1u8, Some(u64::sym() as u128))).is_err(),
        1 => to_bytes(&vec![u64::sym() as i128]).is_err(),
        2 => to_bytes(&(1u8, NoLenSeq)).is_err(),
        3 => to_bytes(&Some([NoLenMap])).is_err(),
        4 => to_bytes(&Flat { a: rt::u8(), b: Inner { x: rt::u16() } }).is_err(),
        5 => to_bytes(&Filt(rt::u8())).is_err(),
        6 => {
            // u64 values that would fit are no excuse
            let v = u64::sym();
            to_bytes(&(v as u128)).is_err() && to_bytes(&((v as u128) << 64)).is_err()
        }
        7 => from_bytes::<Unt>(&some()).is_err(),
        8 => from_bytes::<Int>(&some()).is_err(),
        9 => from_bytes::<FlatD>(&some()).is_err(),
        10 => from_bytes::<(u8, de::IgnoredAny)>(&some()).is_err(),
        11 => from_bytes::<(u128, u8)>(&some()).is_err(),
        12 => from_bytes::<[AnyV; 1]>(&some()).is_err(),
        _ => from_bytes::<(u8, i128)>(&some()).is_err(),
    };
    rt::check(bad, "request without an XDR representation succeeded");
    rt::reach("refused");
}

// ---------------------------------------------------------------- every discriminant, every count
struct AnyIdx(u64);
impl<'de> Deserialize<'de> for AnyIdx {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Idx;
        impl<'de> Visitor<'de> for Idx {
            type Value = u64;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("index")
            }
            fn visit_u64<E>(self, v: u64) -> Result<u64, E> {
                Ok(v)
            }
        }
        impl<'de> de::DeserializeSeed<'de> for Idx {
            type Value = u64;
            fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> {
                d.deserialize_identifier(self)
            }
        }
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = AnyIdx;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("enum")
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<AnyIdx, A::Error> {
                let (i, v) = a.variant_seed(Idx)?;
                v.unit_variant()?;
                Ok(AnyIdx(i))
            }
        }
        d.deserialize_enum("E", &["A", "B"], V)
    }
}
/// an enum may have any index: all 32-bit words
#[unsafe(no_mangle)]
pub fn c11_index() {
    let w = rt::u32();
    let mut b = vec![];
    put_w(&mut b, w);
    match from_bytes::<AnyIdx>(&b) {
        Ok(i) => {
            rt::check(i.0 == w as u64, "discriminant changed");
            rt::check(w <= i32::MAX as u32, "negative discriminant accepted");
            rt::reach("ok")
        }
        Err(_) => {
            rt::check(w > i32::MAX as u32, "representable discriminant refused");
            rt::reach("refused")
        }
    }
}
struct Hint<const M: bool>(usize);
impl<'de, const M: bool> Deserialize<'de> for Hint<M> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const M: bool>;
        impl<'de, const M: bool> Visitor<'de> for V<M> {
            type Value = Hint<M>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("count")
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, a: A) -> Result<Hint<M>, A::Error> {
                Ok(Hint(a.size_hint().unwrap_or(usize::MAX)))
            }
            fn visit_map<A: de::MapAccess<'de>>(self, a: A) -> Result<Hint<M>, A::Error> {
                Ok(Hint(a.size_hint().unwrap_or(usize::MAX)))
            }
        }
        if M { d.deserialize_map(V) } else { d.deserialize_seq(V) }
    }
}
/// the count a decoder tells is the one on the wire
#[unsafe(no_mangle)]
pub fn c11_hint() {
    let w = rt::u32();
    let mut b = vec![];
    put_w(&mut b, w);
    let r = if rt::choose(2) == 0 { from_bytes::<Hint<true>>(&b).map(|h| h.0) } else { from_bytes::<Hint<false>>(&b).map(|h| h.0) };
    match r {
        Ok(n) => {
            rt::check(n == usize::MAX || n == w as usize, "count changed");
            rt::reach("ok")
        }
        Err(_) => rt::fail("count refused"),
    }
}
fn bounded<T: Codec>(n: (usize, u32)) {
    let k = rt::upto(n.0 / 4 + 1) * 4;
    let b = msg(k, n.1);
    rt::alloc_limit(2 << 20);
    match from_bytes::<T>(&b) {
        Ok(_) => rt::reach("accepted"),
        Err(_) => rt::reach("rejected"),
    }
}
#[unsafe(no_mangle)]
pub fn c12_more() {
    group_n!(bounded; Str: (12, 1), Box<str>: (12, 1), Cow<'static, str>: (8, 1), std::ffi::CString: (12, 1), Box<[u64]>: (20, 1), VecDeque<u64>: (20, 1), LinkedList<i8>: (12, 1), BTreeSet<u16>: (12, 1), BTreeMap<String, u8>: (16, 3), BTreeMap<u8, Vec<u8>>: (16, 5),
        Vec<Option<u64>>: (16, 1), Vec<Zero>: (16, 1), Vec<Wide>: (12, 1), Vec<Fix<64>>: (12, 1), Vec<Opq>: (16, 1), Option<Var>: (12, 2), (u8, VA): (16, 2), (VA, VA): (16, 1), Vec<Raw<true>>: (16, 3), Vec<Tup16>: (12, 1), Fix<200>: (24, 0), Result<u8, String>: (12, 2), Vec<Result<u8, String>>: (16, 1))
}

/// decodes with visitors that take each form only in its own way
#[derive(PartialEq, Debug)]
struct Strict<const K: u8>(Option<i32>);
impl<'de, const K: u8> Deserialize<'de> for Strict<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct VO;
        impl<'de> Visitor<'de> for VO {
            type Value = Option<i32>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("option")
            }
            fn visit_none<E: de::Error>(self) -> Result<Option<i32>, E> {
                Ok(None)
            }
            fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Option<i32>, D::Error> {
                i32::deserialize(d).map(Some)
            }
        }
        struct VU;
        impl<'de> Visitor<'de> for VU {
            type Value = Option<i32>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("unit")
            }
            fn visit_unit<E: de::Error>(self) -> Result<Option<i32>, E> {
                Ok(None)
            }
        }
        struct VN;
        impl<'de> Visitor<'de> for VN {
            type Value = Option<i32>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("newtype")
            }
            fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Option<i32>, D::Error> {
                i32::deserialize(d).map(Some)
            }
        }
        Ok(Strict(match K {
            0 => d.deserialize_option(VO)?,
            1 => d.deserialize_unit(VU)?,
            2 => d.deserialize_unit_struct("U", VU)?,
            _ => d.deserialize_newtype_struct("N", VN)?,
        }))
    }
}
#[unsafe(no_mangle)]
pub fn c03_custom() {
    let w = rt::u32();
    let v = rt::u32();
    let none = rt::boolean();
    let mut b = vec![];
    put_w(&mut b, !none as u32);
    if !none {
        put_w(&mut b, v);
    }
    put_w(&mut b, w);
    type T = (Strict<0>, Strict<1>, Strict<2>, Strict<3>);
    match from_bytes::<T>(&b) {
        Ok(t) => {
            rt::check(t.0.0 == if none { None } else { Some(v as i32) } && t.1.0.is_none() && t.2.0.is_none() && t.3.0 == Some(w as i32), "value changed");
            rt::reach("decoded")
        }
        Err(_) => rt::fail("encoding refused by a visitor that takes exactly this form"),
    }
}
