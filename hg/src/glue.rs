//! Maps the types the generator is expected to produce to the reference model.
//!
//! A marker type stands for a declaration of the definition; `Real` is the type a user finds in
//! the generated code and `enc`/`dec` are RFC 4506's rules for the declaration.
use crate::rt;
use crate::spec::*;
use serde_xdr::opaque::{FixedArray, VariableArray};
use std::marker::PhantomData;

pub trait Map {
    type Real;
    fn enc(r: &Self::Real, o: &mut Vec<u8>);
    fn dec(i: &mut In) -> Result<Self::Real, No>;
    fn sym() -> Self::Real;
}

/// a type with its own rules
pub struct P<T>(PhantomData<T>);
impl<T: Spec> Map for P<T> {
    type Real = T;
    fn enc(r: &T, o: &mut Vec<u8>) {
        r.enc(o)
    }
    fn dec(i: &mut In) -> Result<T, No> {
        T::dec(i)
    }
    fn sym() -> T {
        T::sym()
    }
}
/// counted bytes
pub struct Opq;
impl Map for Opq {
    type Real = Vec<u8>;
    fn enc(r: &Vec<u8>, o: &mut Vec<u8>) {
        put_opaque(o, r)
    }
    fn dec(i: &mut In) -> Result<Vec<u8>, No> {
        Ok(i.opaque()?.to_vec())
    }
    fn sym() -> Vec<u8> {
        rt::vec(len_s())
    }
}
/// fixed bytes
pub struct OpqF<const N: usize>;
impl<const N: usize> Map for OpqF<N> {
    type Real = [u8; N];
    fn enc(r: &[u8; N], o: &mut Vec<u8>) {
        put_fixed(o, r)
    }
    fn dec(i: &mut In) -> Result<[u8; N], No> {
        let mut a = [0; N];
        a.copy_from_slice(i.take(N)?);
        i.take((4 - N % 4) % 4)?;
        Ok(a)
    }
    fn sym() -> [u8; N] {
        rt::arr()
    }
}
/// the same inside of arrays, options and arms, where the generated code uses a wrapper
pub struct OpqW;
impl Map for OpqW {
    type Real = VariableArray;
    fn enc(r: &VariableArray, o: &mut Vec<u8>) {
        Opq::enc(&r.data, o)
    }
    fn dec(i: &mut In) -> Result<VariableArray, No> {
        Ok(VariableArray { data: Opq::dec(i)? })
    }
    fn sym() -> VariableArray {
        VariableArray { data: Opq::sym() }
    }
}
pub struct OpqFW<const N: usize>;
impl<const N: usize> Map for OpqFW<N> {
    type Real = FixedArray<[u8; N]>;
    fn enc(r: &Self::Real, o: &mut Vec<u8>) {
        OpqF::<N>::enc(&r.data, o)
    }
    fn dec(i: &mut In) -> Result<Self::Real, No> {
        Ok(FixedArray { data: OpqF::<N>::dec(i)? })
    }
    fn sym() -> Self::Real {
        FixedArray { data: OpqF::<N>::sym() }
    }
}

static mut FUEL: usize = 0;
/// how many optional values and list elements one value may have in total
pub fn fuel(n: usize) {
    unsafe { FUEL = n }
}
pub struct Opt<M>(PhantomData<M>);
impl<M: Map> Map for Opt<M> {
    type Real = Option<M::Real>;
    fn enc(r: &Self::Real, o: &mut Vec<u8>) {
        match r {
            None => put_w(o, 0),
            Some(x) => {
                put_w(o, 1);
                M::enc(x, o)
            }
        }
    }
    fn dec(i: &mut In) -> Result<Self::Real, No> {
        if i.w()? == 0 { Ok(None) } else { Ok(Some(M::dec(i)?)) }
    }
    fn sym() -> Self::Real {
        unsafe {
            if FUEL > 0 && rt::choose(2) == 1 {
                FUEL -= 1;
                return Some(M::sym());
            }
        }
        None
    }
}
pub struct Seq<M>(PhantomData<M>);
impl<M: Map> Map for Seq<M> {
    type Real = Vec<M::Real>;
    fn enc(r: &Self::Real, o: &mut Vec<u8>) {
        put_w(o, r.len() as u32);
        for x in r {
            M::enc(x, o)
        }
    }
    fn dec(i: &mut In) -> Result<Self::Real, No> {
        let n = i.w()?;
        let mut v = vec![];
        let mut k = 0;
        while k < n {
            v.push(M::dec(i)?);
            k += 1;
        }
        Ok(v)
    }
    fn sym() -> Self::Real {
        let n = rt::upto(unsafe { FUEL.min(MAXV) } + 1);
        unsafe { FUEL -= n }
        (0..n).map(|_| M::sym()).collect()
    }
}
pub struct Arr<M, const N: usize>(PhantomData<M>);
impl<M: Map, const N: usize> Map for Arr<M, N> {
    type Real = [M::Real; N];
    fn enc(r: &Self::Real, o: &mut Vec<u8>) {
        for x in r {
            M::enc(x, o)
        }
    }
    fn dec(i: &mut In) -> Result<Self::Real, No> {
        let mut v = vec![];
        for _ in 0..N {
            v.push(M::dec(i)?);
        }
        match v.try_into() {
            Ok(a) => Ok(a),
            Err(_) => Err(No::Bad),
        }
    }
    fn sym() -> Self::Real {
        std::array::from_fn(|_| M::sym())
    }
}
pub struct Bx<M>(PhantomData<M>);
impl<M: Map> Map for Bx<M> {
    type Real = Box<M::Real>;
    fn enc(r: &Self::Real, o: &mut Vec<u8>) {
        M::enc(r, o)
    }
    fn dec(i: &mut In) -> Result<Self::Real, No> {
        Ok(Box::new(M::dec(i)?))
    }
    fn sym() -> Self::Real {
        Box::new(M::sym())
    }
}
/// a boxed value that always leads on: takes from the bound of optional values
pub struct Lk<M>(PhantomData<M>);
impl<M: Map> Map for Lk<M> {
    type Real = Box<M::Real>;
    fn enc(r: &Self::Real, o: &mut Vec<u8>) {
        M::enc(r, o)
    }
    fn dec(i: &mut In) -> Result<Self::Real, No> {
        Ok(Box::new(M::dec(i)?))
    }
    fn sym() -> Self::Real {
        unsafe {
            rt::assume(FUEL > 0);
            FUEL -= 1;
        }
        Box::new(M::sym())
    }
}

/// types a union can be switched on
pub trait Disc: Spec {
    fn word(&self) -> u32;
    fn valid(w: u32) -> bool;
}
impl Disc for i32 {
    fn word(&self) -> u32 {
        *self as u32
    }
    fn valid(_: u32) -> bool {
        true
    }
}
impl Disc for u32 {
    fn word(&self) -> u32 {
        *self
    }
    fn valid(_: u32) -> bool {
        true
    }
}
impl Disc for bool {
    fn word(&self) -> u32 {
        *self as u32
    }
    fn valid(w: u32) -> bool {
        w < 2
    }
}
pub fn of_word<D: Disc>(w: u32) -> D {
    let mut o = vec![];
    put_w(&mut o, w);
    match D::dec(&mut In { b: &o, p: 0 }) {
        Ok(d) => d,
        Err(_) => unreachable!(),
    }
}
pub fn eq_enc<T: Spec>(a: &T, b: &T) -> bool {
    let (mut x, mut y) = (vec![], vec![]);
    a.enc(&mut x);
    b.enc(&mut y);
    x == y
}

#[macro_export]
macro_rules! gstruct {
    ($($n:ident { $($f:ident : $t:ty),* $(,)? })*) => {$(
        impl Spec for $n {
            fn enc(&self, o: &mut Vec<u8>) { $(<$t as Map>::enc(&self.$f, o);)* }
            fn dec(i: &mut In) -> Result<Self, No> { $(let $f = <$t as Map>::dec(i)?;)* Ok($n { $($f),* }) }
            fn same(&self, o: &Self) -> bool { eq_enc(self, o) }
            fn sym() -> Self { $(let $f = <$t as Map>::sym();)* $n { $($f),* } }
        }
    )*};
}
/// enumerators in the order of their values
#[macro_export]
macro_rules! genum {
    ($e:ident; $($n:ident { $($v:ident = $d:literal),* $(,)? })*) => {$(
        impl Spec for $n {
            #[allow(unreachable_patterns)]
            fn enc(&self, o: &mut Vec<u8>) {
                match self { $($n::$v => put_w(o, $d as i64 as u32),)* _ => put_w(o, 0x7777_7777) }
            }
            fn dec(i: &mut In) -> Result<Self, No> {
                let w = i.w()?;
                $(if w == $d as i64 as u32 { return Ok($n::$v) })*
                #[allow(unused_assignments)]
                let mut max = 0u32;
                $(max = $d as i64 as u32;)*
                // complement mode fills gaps with placeholders, indexer mode is lenient (see T02)
                Err(enum_no!($e w max))
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn sym() -> Self {
                let k = rt::choose([$(stringify!($v)),*].len() as u32);
                let mut j = 0;
                $(if k == j { return $n::$v } j += 1;)*
                let _ = j;
                unreachable!()
            }
        }
        impl Disc for $n {
            fn word(&self) -> u32 { let mut o = vec![]; self.enc(&mut o); In { b: &o, p: 0 }.w().unwrap_or(0) }
            fn valid(w: u32) -> bool { $(w == $d as i64 as u32)||* }
        }
        impl Listed for $n { const FIRST: u32 = { let v = [$($d as i64 as u32),*]; v[0] }; }
    )*};
}
pub trait Listed: Disc {
    const FIRST: u32;
}
#[macro_export]
macro_rules! enum_no {
    (C $w:ident $m:ident) => {
        if $w < $m { No::Skip } else { No::Bad }
    };
    (S $w:ident $m:ident) => {{
        let _ = $m;
        No::Bad
    }};
    (I $w:ident $m:ident) => {{
        let _ = $m;
        No::Skip
    }};
}
/// arms `Name = value [x: Marker]` in the order of the values, `default word [x: Marker]`; word
/// is what complement mode writes for the default arm
#[macro_export]
macro_rules! gunion {
    ($u:ident; $($n:ident : $d:ty { $($v:ident = $c:literal $([$x:ident : $t:ty])?),* $(; $def:ident $dw:literal $([$dx:ident : $dt:ty])?)? })*) => {$(
        gunion_enc!($u; $n : $d { $($v = $c $([$x : $t])?),* $(; $def $dw $([$dx : $dt])?)? });
        impl Disc for Tag<$n> {
            fn word(&self) -> u32 { self.0 }
            fn valid(w: u32) -> bool { false $(|| w == $c)* }
        }
        impl UnionOf for $n {
            type D = $d;
            const DEFAULT: bool = false $(|| stringify!($def).len() > 0)?;
        }
    )*};
}
pub struct Tag<T>(pub u32, pub PhantomData<T>);
impl<T> Spec for Tag<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        put_w(o, self.0)
    }
    fn dec(i: &mut In) -> Result<Self, No> {
        Ok(Tag(i.w()?, PhantomData))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn sym() -> Self {
        Tag(rt::u32(), PhantomData)
    }
}
pub trait UnionOf {
    type D: Disc;
    const DEFAULT: bool;
}
#[macro_export]
macro_rules! gunion_enc {
    (C; $n:ident : $d:ty { $($v:ident = $c:literal $([$x:ident : $t:ty])?),* $(; $def:ident $dw:literal $([$dx:ident : $dt:ty])?)? }) => {
        impl Spec for $n {
            #[allow(unreachable_patterns)]
            fn enc(&self, o: &mut Vec<u8>) {
                match self {
                    $($n::$v $(($x))? => { put_w(o, $c); $(<$t as Map>::enc($x, o);)? })*
                    $($n::$def $(($dx))? => { put_w(o, $dw); $(<$dt as Map>::enc($dx, o);)? })?
                    _ => put_w(o, 0x7777_7777),
                }
            }
            #[allow(unused_assignments, unused_mut, unused_variables)]
            fn dec(i: &mut In) -> Result<Self, No> {
                let w = i.w()?;
                $(if w == $c { $(let $x = <$t as Map>::dec(i)?;)? return Ok($n::$v $(($x))?) })*
                let mut max = 0u32;
                $(max = $c;)*
                let mut skip = false;
                $(
                    if w == $dw && <$d as Disc>::valid(w) { $(let $dx = <$dt as Map>::dec(i)?;)? return Ok($n::$def $(($dx))?) }
                    // complement mode has room for one discriminant of the default arm only
                    skip = <$d as Disc>::valid(w) || w == $dw;
                )?
                Err(if w < max || skip { No::Skip } else { No::Bad })
            }
            fn same(&self, o: &Self) -> bool { eq_enc(self, o) }
            #[allow(unused_mut, unused_variables)]
            fn sym() -> Self {
                let mut n = [$(stringify!($v)),*].len() as u32;
                $(let _ = stringify!($def); if <$d as Disc>::valid($dw) { n += 1 })?
                let k = rt::choose(n);
                let mut j = 0;
                $(if k == j { $(let $x = <$t as Map>::sym();)? return $n::$v $(($x))? } j += 1;)*
                let _ = j;
                $($(let $dx = <$dt as Map>::sym();)? return $n::$def $(($dx))?;)?
                #[allow(unreachable_code)]
                { unreachable!() }
            }
        }
    };
    (I; $n:ident : $d:ty { $($v:ident = $c:literal $([$x:ident : $t:ty])?),* $(; $def:ident $dw:literal $([$dx:ident : $dt:ty])?)? }) => {
        impl Spec for $n {
            #[allow(unreachable_patterns)]
            fn enc(&self, o: &mut Vec<u8>) {
                match self {
                    $($n::$v $(($x))? => { put_w(o, $c); $(<$t as Map>::enc($x, o);)? })*
                    // the discriminant of the default arm is not kept, see bool_word
                    $($n::$def $(($dx))? => { put_w(o, bool_word::<$d>($dw)); $(<$dt as Map>::enc($dx, o);)? })?
                }
            }
            fn dec(i: &mut In) -> Result<Self, No> {
                let w = i.w()?;
                $(if w == $c { $(let $x = <$t as Map>::dec(i)?;)? return Ok($n::$v $(($x))?) })*
                $(
                    if <$d as Disc>::valid(w) { $(let $dx = <$dt as Map>::dec(i)?;)? return Ok($n::$def $(($dx))?) }
                    // a value the enum does not have, but the default arm takes
                    if bool_word::<$d>($dw) != $dw { return Err(No::Skip) }
                )?
                #[allow(unreachable_code)]
                Err(No::Bad)
            }
            fn same(&self, o: &Self) -> bool { eq_enc(self, o) }
            #[allow(unused_mut, unused_variables)]
            fn sym() -> Self {
                let mut n = [$(stringify!($v)),*].len() as u32;
                // only the default arm of a bool can be encoded
                $(let _ = stringify!($def); if bool_word::<$d>($dw) == $dw { n += 1 })?
                let k = rt::choose(n);
                let mut j = 0;
                $(if k == j { $(let $x = <$t as Map>::sym();)? return $n::$v $(($x))? } j += 1;)*
                let _ = j;
                $($(let $dx = <$dt as Map>::sym();)? return $n::$def $(($dx))?;)?
                #[allow(unreachable_code)]
                { unreachable!() }
            }
        }
    };
    (U; $n:ident : $d:ty { $($v:ident = $c:literal $([$x:ident : $t:ty])?),* $(; $def:ident $dw:literal $([$dx:ident : $dt:ty])?)? }) => {
        impl Spec for $n {
            fn enc(&self, o: &mut Vec<u8>) {
                match self {
                    $($n::$v(value $(, $x)?) => { value.enc(o); $(<$t as Map>::enc($x, o);)? })*
                    $($n::$def(value $(, $dx)?) => { value.enc(o); $(<$dt as Map>::enc($dx, o);)? })?
                }
            }
            fn dec(i: &mut In) -> Result<Self, No> {
                let value = <$d as Spec>::dec(i)?;
                let w = value.word();
                $(if w == $c { $(let $x = <$t as Map>::dec(i)?;)? return Ok($n::$v(value $(, $x)?)) })*
                $($(let $dx = <$dt as Map>::dec(i)?;)? return Ok($n::$def(value $(, $dx)?));)?
                #[allow(unreachable_code)]
                Err(No::Bad)
            }
            fn same(&self, o: &Self) -> bool {
                match (self, o) {
                    $(($n::$v(..), $n::$v(..)) => eq_enc(self, o),)*
                    $(($n::$def(..), $n::$def(..)) => eq_enc(self, o),)?
                    #[allow(unreachable_patterns)]
                    _ => false,
                }
            }
            #[allow(unused_mut, unused_variables)]
            fn sym() -> Self {
                let mut n = [$(stringify!($v)),*].len() as u32;
                $(let _ = stringify!($def); n += 1;)?
                let k = rt::choose(n);
                let mut j = 0;
                $(if k == j { $(let $x = <$t as Map>::sym();)? return $n::$v(of_word::<$d>($c) $(, $x)?) } j += 1;)*
                let _ = j;
                $(
                    let value = <$d as Spec>::sym();
                    let w = value.word();
                    $crate::not_listed!($n w);
                    $(let $dx = <$dt as Map>::sym();)?
                    return $n::$def(value $(, $dx)?);
                )?
                #[allow(unreachable_code)]
                { unreachable!() }
            }
        }
    };
}
#[macro_export]
macro_rules! not_listed {
    ($n:ident $w:ident) => {
        rt::assume(!<Tag<$n> as Disc>::valid($w))
    };
}
/// the only default arm with a known discriminant is that of a bool with one case
pub fn bool_word<D: Disc>(w: u32) -> u32 {
    if D::valid(2) || D::valid(3) || D::valid(4) { 0x7777_7777 } else { w }
}
