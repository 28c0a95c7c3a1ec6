//! Generic obligations shared by the harness crates.
#![allow(dead_code)]
use crate::rt;
use crate::spec::*;
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_xdr::error::Error;
use serde_xdr::{from_bytes, to_bytes};

// ---------------------------------------------------------------- generic obligations
pub trait Codec: Spec + Serialize + DeserializeOwned {}
impl<T: Spec + Serialize + DeserializeOwned> Codec for T {}

/// to_bytes produces exactly the reference encoding
pub fn wire<T: Codec>() {
    let v = T::sym();
    let mut want = vec![];
    v.enc(&mut want);
    match to_bytes(&v) {
        Ok(got) => {
            rt::observe(&got);
            rt::check(got.len() == want.len(), "wire length");
            rt::check(got == want, "wire bytes");
            rt::check(got.len() % 4 == 0, "wire size is a multiple of 4");
            rt::reach("encoded");
        }
        Err(_) => rt::fail("encoder refused a representable value"),
    }
}
/// the reference encoding decodes to the value (fixes the decode direction independently)
pub fn unwire<T: Codec>() {
    let v = T::sym();
    let mut b = vec![];
    v.enc(&mut b);
    match from_bytes::<T>(&b) {
        Ok(r) => {
            rt::check(r.same(&v), "decoded value");
            rt::reach("decoded");
        }
        Err(_) => rt::fail("decoder refused a valid encoding"),
    }
}
pub fn round<T: Codec>() {
    let v = T::sym();
    let b = match to_bytes(&v) {
        Ok(b) => b,
        Err(_) => return rt::fail("encoder refused a representable value"),
    };
    rt::observe(&b);
    match from_bytes::<T>(&b) {
        Ok(r) => {
            rt::check(r.same(&v), "round trip changes the value");
            rt::reach("round");
        }
        Err(_) => rt::fail("own encoding does not decode"),
    }
}
/// arbitrary input of every length up to n: never panics, agrees with the reference decoder
/// n arbitrary bytes; the words named in `mask` (lengths) are split into every value up to n + 4
/// separately and "larger", so that positions derived from them stay concrete per path
pub fn msg(n: usize, mask: u32) -> Vec<u8> {
    let mut b = rt::vec(n);
    for w in 0..8 {
        if mask >> w & 1 == 1 && n >= 4 * w + 4 {
            let k = rt::upto(n + 6);
            let at = 4 * w;
            if k <= n + 4 {
                b[at] = 0;
                b[at + 1] = 0;
                b[at + 2] = 0;
                b[at + 3] = k as u8;
            } else {
                rt::assume(!(b[at] == 0 && b[at + 1] == 0 && b[at + 2] == 0 && b[at + 3] as usize <= n + 4));
            }
        }
    }
    b
}
pub fn decode_tot<T: Codec>(n: (usize, u32)) {
    decode_any::<T>(n, false)
}
pub fn decode_eq<T: Codec>(n: (usize, u32)) {
    decode_any::<T>(n, true)
}
pub fn decode_any<T: Codec>(n: (usize, u32), eq: bool) {
    let k = rt::upto(n.0 + 1);
    let b = msg(k, n.1);
    decode_bytes::<T>(&b, eq)
}
pub fn decode_bytes<T: Codec>(b: &[u8], eq: bool) {
    let got = from_bytes::<T>(b);
    if !eq {
        match got {
            Ok(v) => {
                let mut o = vec![];
                v.enc(&mut o);
                rt::observe(&o);
                rt::reach("accepted")
            }
            Err(_) => rt::reach("rejected"),
        }
        return;
    }
    let mut i = In { b, p: 0 };
    let want = T::dec(&mut i);
    match (got, want) {
        (Ok(v), Ok(w)) => {
            rt::check(v.same(&w), "decoded value differs from the encoded one");
            rt::check(i.p == b.len(), "accepted with unread input");
            rt::reach("accepted");
        }
        (_, Err(No::Skip)) => rt::assume(false),
        (Err(_), Err(_)) => rt::reach("rejected"),
        (Ok(_), Err(No::Bad)) => rt::fail("accepted an encoding no value has"),
        (Ok(_), Err(No::Short)) => rt::fail("accepted truncated input"),
        (Err(e), Ok(_)) => {
            if i.p == b.len() {
                rt::fail("rejected a valid encoding")
            }
            match e {
                Error::TrailingData(k) => {
                    rt::check(k == b.len() - i.p, "trailing byte count");
                    rt::reach("trailing")
                }
                _ => rt::fail("complete value followed by extra bytes not reported as trailing data"),
            }
        }
    }
}
/// a re-encoding of whatever was accepted gives back the input, except pad bytes and
/// non-canonical non-zero bool/option words (canonical = reference encoding of the value)
pub fn faithful<T: Codec>(n: (usize, u32)) {
    let k = rt::upto(n.0 + 1);
    let b = msg(k, n.1);
    if let Ok(v) = from_bytes::<T>(&b) {
        let e = match to_bytes(&v) {
            Ok(e) => e,
            Err(_) => return rt::fail("accepted value cannot be encoded"),
        };
        rt::observe(&e);
        rt::check(e.len() == b.len(), "re-encoding has a different size than the accepted input");
        match from_bytes::<T>(&e) {
            Ok(w) => rt::check(w.same(&v), "re-encoding decodes to another value"),
            Err(_) => rt::fail("re-encoding of an accepted value is rejected"),
        }
        rt::reach("accepted");
    } else {
        rt::reach("rejected");
    }
}
/// every strict prefix of a valid encoding is refused for lack of data; extra bytes are counted
pub fn framing<T: Codec>() {
    let v = T::sym();
    let mut b = vec![];
    v.enc(&mut b);
    if rt::choose(2) == 0 {
        let extra = 1 + rt::upto(5);
        let x = rt::vec(extra);
        b.extend_from_slice(&x);
        match from_bytes::<T>(&b) {
            Err(Error::TrailingData(k)) => {
                rt::check(k == extra, "trailing byte count");
                rt::reach("trailing");
            }
            Err(_) => rt::fail("extra bytes reported as another error"),
            Ok(_) => rt::fail("extra bytes ignored"),
        }
    } else {
        if b.is_empty() {
            return;
        }
        let cut = rt::upto(b.len());
        match from_bytes::<T>(&b[..cut]) {
            Err(Error::NotEnoughData(k)) => {
                rt::check(k > 0, "missing byte count is positive");
                rt::check(k <= b.len() - cut, "missing byte count exceeds what is missing");
                rt::reach("short");
            }
            Err(_) => rt::fail("truncated input reported as another error"),
            Ok(_) => rt::fail("truncated input accepted"),
        }
    }
}

#[macro_export]
macro_rules! group {
    ($f:ident; $($t:ty),* $(,)?) => {{
        let n = [$(stringify!($t)),*].len() as u32;
        let k = rt::choose(n);
        let mut i = 0;
        $( if k == i { return $f::<$t>(); } i += 1; )*
        let _ = i;
    }};
}
#[macro_export]
macro_rules! group_n {
    ($f:ident; $($t:ty : $n:expr),* $(,)?) => {{
        let n = [$(stringify!($t)),*].len() as u32;
        let k = rt::choose(n);
        let mut i = 0;
        $( if k == i { return $f::<$t>($n); } i += 1; )*
        let _ = i;
    }};
}

