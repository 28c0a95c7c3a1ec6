//! Independent reference model of RFC 4506 encoding, used as the oracle.
use crate::rt;
use std::collections::BTreeMap;

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum No {
    Short,
    Bad,
    /// outside of what the property speaks about
    Skip,
}

pub struct In<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> In<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], No> {
        if self.b.len() - self.p < n {
            return Err(No::Short);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn w(&mut self) -> Result<u32, No> {
        let s = self.take(4)?;
        Ok(((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | s[3] as u32)
    }
    pub fn d(&mut self) -> Result<u64, No> {
        let h = self.take(8)?;
        let mut r = 0u64;
        for x in h {
            r = (r << 8) | *x as u64;
        }
        Ok(r)
    }
    /// counted bytes with 0..3 bytes of padding
    pub fn opaque(&mut self) -> Result<&'a [u8], No> {
        let n = self.w()? as usize;
        let s = self.take(n)?;
        let pad = (4 - n % 4) % 4;
        self.take(pad)?;
        Ok(s)
    }
}

pub fn put_w(o: &mut Vec<u8>, v: u32) {
    o.push((v >> 24) as u8);
    o.push((v >> 16) as u8);
    o.push((v >> 8) as u8);
    o.push(v as u8);
}
pub fn put_d(o: &mut Vec<u8>, v: u64) {
    put_w(o, (v >> 32) as u32);
    put_w(o, v as u32);
}
pub fn put_opaque(o: &mut Vec<u8>, v: &[u8]) {
    put_w(o, v.len() as u32);
    put_fixed(o, v);
}
pub fn put_fixed(o: &mut Vec<u8>, v: &[u8]) {
    o.extend_from_slice(v);
    for _ in 0..(4 - v.len() % 4) % 4 {
        o.push(0);
    }
}

pub trait Spec: Sized {
    fn enc(&self, o: &mut Vec<u8>);
    fn dec(i: &mut In) -> Result<Self, No>;
    fn same(&self, o: &Self) -> bool;
    fn sym() -> Self;
}

macro_rules! small {
    ($($t:ident $via:ident),*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { put_w(o, *self as $via as u32) }
            fn dec(i: &mut In) -> Result<Self, No> {
                let w = i.w()? as $via;
                if w < $t::MIN as $via || w > $t::MAX as $via { return Err(No::Bad) }
                Ok(w as $t)
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn sym() -> Self { $t::from_be_bytes(rt::arr()) }
        }
    )*};
}
small!(u8 u32, u16 u32, u32 u32, i8 i32, i16 i32, i32 i32);
macro_rules! wide {
    ($($t:ident),*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { put_d(o, *self as u64) }
            fn dec(i: &mut In) -> Result<Self, No> { Ok(i.d()? as $t) }
            fn same(&self, o: &Self) -> bool { self == o }
            fn sym() -> Self { $t::from_be_bytes(rt::arr()) }
        }
    )*};
}
wide!(u64, i64);
impl Spec for f32 {
    fn enc(&self, o: &mut Vec<u8>) {
        put_w(o, self.to_bits())
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(f32::from_bits(i.w()?))
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn sym() -> Self {
        f32::from_bits(rt::u32())
    }
}
impl Spec for f64 {
    fn enc(&self, o: &mut Vec<u8>) {
        put_d(o, self.to_bits())
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(f64::from_bits(i.d()?))
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn sym() -> Self {
        f64::from_bits(rt::u64())
    }
}
impl Spec for bool {
    fn enc(&self, o: &mut Vec<u8>) {
        put_w(o, if *self { 1 } else { 0 })
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        // any non-zero word is accepted as true (documented leniency)
        Ok(i.w()? != 0)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn sym() -> Self {
        rt::boolean()
    }
}
impl Spec for char {
    fn enc(&self, o: &mut Vec<u8>) {
        put_w(o, *self as u32)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let w = i.w()?;
        if w > 0x10FFFF || (w >= 0xD800 && w <= 0xDFFF) {
            return Err(No::Bad);
        }
        Ok(unsafe { char::from_u32_unchecked(w) })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn sym() -> Self {
        let w = rt::u32();
        rt::assume(w <= 0x10FFFF && !(w >= 0xD800 && w <= 0xDFFF));
        unsafe { char::from_u32_unchecked(w) }
    }
}
impl Spec for () {
    fn enc(&self, _: &mut Vec<u8>) {}
    fn dec(_: &mut In) -> Result<Self, No> {
        Ok(())
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn sym() -> Self {}
}

pub use crate::rt::utf8 as utf8_ok;

pub static mut MAXS: usize = 5;
pub static mut MAXV: usize = 3;
pub fn bounds(s: usize, v: usize) {
    unsafe {
        MAXS = s;
        MAXV = v;
    }
}
pub fn len_s() -> usize {
    rt::upto(unsafe { MAXS } + 1)
}
pub fn len_v() -> usize {
    rt::upto(unsafe { MAXV } + 1)
}

impl Spec for String {
    fn enc(&self, o: &mut Vec<u8>) {
        put_opaque(o, self.as_bytes())
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let s = i.opaque()?;
        if !utf8_ok(s) {
            return Err(No::Bad);
        }
        Ok(unsafe { String::from_utf8_unchecked(s.to_vec()) })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn sym() -> Self {
        let v = rt::vec(len_s());
        rt::assume(utf8_ok(&v));
        unsafe { String::from_utf8_unchecked(v) }
    }
}
impl<T: Spec> Spec for Option<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            None => put_w(o, 0),
            Some(x) => {
                put_w(o, 1);
                x.enc(o)
            }
        }
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        // any non-zero word is accepted as present (documented leniency)
        if i.w()? == 0 { Ok(None) } else { Ok(Some(T::dec(i)?)) }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn sym() -> Self {
        if rt::choose(2) == 1 { Some(T::sym()) } else { None }
    }
}
impl<T: Spec> Spec for Vec<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        put_w(o, self.len() as u32);
        for x in self {
            x.enc(o)
        }
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let n = i.w()?;
        let mut v = vec![];
        let mut k = 0;
        while k < n {
            v.push(T::dec(i)?);
            k += 1;
        }
        Ok(v)
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut r = true;
        for i in 0..self.len() {
            r &= self[i].same(&o[i]);
        }
        r
    }
    fn sym() -> Self {
        let n = len_v();
        (0..n).map(|_| T::sym()).collect()
    }
}
impl<T: Spec> Spec for Box<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        (**self).enc(o)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(Box::new(T::dec(i)?))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
    fn sym() -> Self {
        Box::new(T::sym())
    }
}
impl<T: Spec, const N: usize> Spec for [T; N] {
    fn enc(&self, o: &mut Vec<u8>) {
        for x in self {
            x.enc(o)
        }
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let mut v = vec![];
        for _ in 0..N {
            v.push(T::dec(i)?);
        }
        match v.try_into() {
            Ok(a) => Ok(a),
            Err(_) => Err(No::Bad),
        }
    }
    fn same(&self, o: &Self) -> bool {
        let mut r = true;
        for i in 0..N {
            r &= self[i].same(&o[i]);
        }
        r
    }
    fn sym() -> Self {
        std::array::from_fn(|_| T::sym())
    }
}
macro_rules! tup {
    ($($n:ident $i:tt),+) => {
        impl<$($n: Spec),+> Spec for ($($n,)+) {
            fn enc(&self, o: &mut Vec<u8>) { $(self.$i.enc(o);)+ }
            fn dec(i: &mut In) -> Result<Self, No> { Ok(($($n::dec(i)?,)+)) }
            fn same(&self, o: &Self) -> bool { let mut r = true; $(r &= self.$i.same(&o.$i);)+ r }
            fn sym() -> Self { ($($n::sym(),)+) }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);

impl<K: Spec + Ord, V: Spec> Spec for BTreeMap<K, V> {
    fn enc(&self, o: &mut Vec<u8>) {
        put_w(o, self.len() as u32);
        for (k, v) in self {
            k.enc(o);
            v.enc(o);
        }
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        let n = i.w()?;
        let mut m = BTreeMap::new();
        let mut k = 0;
        while k < n {
            let a = K::dec(i)?;
            let b = V::dec(i)?;
            m.insert(a, b);
            k += 1;
        }
        Ok(m)
    }
    fn same(&self, o: &Self) -> bool {
        let mut r = self.len() == o.len();
        for ((a, b), (c, d)) in self.iter().zip(o) {
            r &= a.same(c) & b.same(d);
        }
        r
    }
    fn sym() -> Self {
        let n = len_v();
        let mut m = BTreeMap::new();
        for _ in 0..n {
            m.insert(K::sym(), V::sym());
        }
        m
    }
}

#[macro_export]
macro_rules! spec_struct {
    ($(#[$m:meta])* struct $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
        $(#[$m])*
        pub struct $n { $(pub $f: $t),* }
        impl Spec for $n {
            fn enc(&self, _o: &mut Vec<u8>) { $(self.$f.enc(_o);)* }
            fn dec(_i: &mut In) -> Result<Self, No> { $(let $f = <$t as Spec>::dec(_i)?;)* Ok($n { $($f),* }) }
            fn same(&self, _o: &Self) -> bool { let r = true; $(let r = r & self.$f.same(&_o.$f);)* r }
            fn sym() -> Self { $(let $f = <$t as Spec>::sym();)* $n { $($f),* } }
        }
    };
}
/// every variant is written as `Name = disc (field: Ty, ...) as pattern`
#[macro_export]
macro_rules! spec_enum {
    (enum $n:ident { $($v:ident $d:literal $([$($tf:ident : $tt:ty),*])? $({$($sf:ident : $st:ty),*})?),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
        pub enum $n { $($v $(($($tt),*))? $({$($sf: $st),*})?),* }
        impl Spec for $n {
            fn enc(&self, o: &mut Vec<u8>) {
                match self { $($n::$v $(($($tf),*))? $({$($sf),*})? => { put_w(o, $d); $($($tf.enc(o);)*)? $($($sf.enc(o);)*)? })* }
            }
            fn dec(i: &mut In) -> Result<Self, No> {
                match i.w()? {
                    $($d => { $($(let $tf = <$tt as Spec>::dec(i)?;)*)? $($(let $sf = <$st as Spec>::dec(i)?;)*)? Ok($n::$v $(($($tf),*))? $({$($sf),*})?) })*
                    _ => Err(No::Bad),
                }
            }
            fn same(&self, o: &Self) -> bool {
                let (mut a, mut b) = (vec![], vec![]);
                self.enc(&mut a);
                o.enc(&mut b);
                a == b
            }
            fn sym() -> Self {
                let k = rt::choose([$($d as u32),*].len() as u32);
                $(if k == $d { $($(let $tf = <$tt as Spec>::sym();)*)? $($(let $sf = <$st as Spec>::sym();)*)? return $n::$v $(($($tf),*))? $({$($sf),*})?; })*
                unreachable!()
            }
        }
    };
}
