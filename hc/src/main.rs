//! The code generator: what it generates for definitions with symbolic parts, read back and
//! compared with what the definitions say.
#![allow(dead_code, clippy::all)]
#[path = "../../rt/rt.rs"]
#[macro_use]
mod rt;
mod rd;
#[path = "../../hr/src/refp.rs"]
mod refp;
mod g02;
mod g03;
mod g04;
mod g07;
mod g08;
mod g09;
mod g10;
use g02::*;
use g03::*;
use g04::*;
use g07::*;
use g08::*;
use g09::*;
use g10::*;
use rd::*;
use refp::{N, number};
use rpcgen::gen_code::{Config, gen_code};
use rpcgen::parser;

/// a combination of modes
#[derive(Clone, Copy)]
pub struct M {
    pub t: bool,
    pub ei: bool,
    pub es: bool,
    pub ui: bool,
    pub uu: bool,
}
impl M {
    pub fn config(&self) -> Config {
        Config { remove_typedef: self.t, enum_impl_indexer: self.ei, enum_impl_std_trait: self.es, union_impl_indexer: self.ui, union_impl_union: self.uu }
    }
    pub fn ec(&self) -> bool {
        !self.ei && !self.es
    }
    pub fn uc(&self) -> bool {
        !self.ui && !self.uu
    }
}
/// any of the 32 combinations
pub fn any_mode() -> M {
    let n = rt::upto(32);
    M { t: n & 1 != 0, ei: n & 2 != 0, es: n & 4 != 0, ui: n & 8 != 0, uu: n & 16 != 0 }
}
/// the three modes, each with and without aliases
pub fn main_mode() -> M {
    let n = rt::upto(6);
    M { t: n & 1 != 0, ei: n / 2 == 1, es: n / 2 == 2, ui: n / 2 == 1, uu: n / 2 == 2 }
}
pub fn enum_mode() -> M {
    let n = rt::upto(4);
    M { t: true, ei: n & 1 != 0, es: n & 2 != 0, ui: false, uu: false }
}
/// the modes for unions (both at once is no mode) with those for enums
pub fn union_mode() -> M {
    let n = rt::upto(3);
    let e = rt::upto(3);
    M { t: true, ei: e == 1, es: e == 2, ui: n == 1, uu: n == 2 }
}
pub fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// the template with `$0`, `$1`, ... replaced
pub fn fill(t: &str, h: &[&[u8]]) -> Vec<u8> {
    let t = t.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'$' {
            o.extend_from_slice(h[(t[i + 1] - b'0') as usize]);
            i += 2;
        } else {
            o.push(t[i]);
            i += 1;
        }
    }
    o
}
/// parse: None if the text is no definition list
pub fn parsed(t: Vec<u8>) -> Option<Vec<parser::Definition>> {
    let t = text(t);
    parser::parse(&t).ok()
}
pub fn generate(d: Vec<parser::Definition>, m: M) -> Option<String> {
    let r = gen_code(d, &m.config()).ok();
    if let Some(s) = &r {
        rt::observe(s.as_bytes());
    }
    r
}
/// generated text for a text that must be accepted by the parser
pub fn of(t: Vec<u8>, m: M) -> Option<String> {
    match parsed(t) {
        Some(d) => generate(d, m),
        None => {
            rt::fail("well-formed definitions rejected");
            None
        }
    }
}
pub fn hole(n: usize, ok: fn(u8) -> bool) -> Vec<u8> {
    let v = rt::vec(n);
    for b in &v {
        rt::assume(ok(*b));
    }
    v
}
fn numeric(c: u8) -> bool {
    c.is_ascii_hexdigit() || c == b'x' || c == b'-'
}
const LONG: &[&str] = &[
    "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-2147483648", "-2147483649", "0x7fffffff", "0xffffffff", "0x80000000",
    "0xffffffffffffffff", "017777777777", "037777777777", "040000000000", "65535", "0x10000", "-32769", "256",
];
/// a number of 1 to n arbitrary characters
pub fn short(n: usize) -> (Vec<u8>, N) {
    let v = hole(1 + rt::upto(n), numeric);
    let r = number(&v);
    rt::assume(r.is_ok());
    let r = r.unwrap_or(N::Out);
    (v, r)
}
/// a long number with an arbitrary character in an arbitrary place
pub fn long() -> (Vec<u8>, N) {
    let l = LONG[rt::upto(LONG.len())].as_bytes();
    let at = rt::upto(l.len());
    let mut v = l.to_vec();
    v[at] = hole(1, numeric)[0];
    let r = number(&v);
    rt::assume(r.is_ok());
    let r = r.unwrap_or(N::Out);
    (v, r)
}
pub fn num() -> (Vec<u8>, N) {
    match rt::upto(2) {
        0 => short(2),
        _ => long(),
    }
}
/// the number, if it is an i32
pub fn i32_of(n: N) -> Option<i64> {
    match n {
        N::Pos(v) if v <= i32::MAX as u64 => Some(v as i64),
        N::Neg(v) if v <= 1 << 31 => Some(-(v as i64)),
        _ => None,
    }
}
pub fn u32_of(n: N) -> Option<u32> {
    match n {
        N::Pos(v) if v <= u32::MAX as u64 => Some(v as u32),
        _ => None,
    }
}
pub fn is_num(l: &L, n: N) -> bool {
    match n {
        N::Pos(v) => !l.neg && l.mag == v,
        N::Neg(v) => l.neg && l.mag == v as u64,
        N::Out => false,
    }
}
pub fn find_enum<'a, 'b>(it: &'b [Item<'a>], n: &[u8]) -> Option<(&'b B, &'b Vec<Var<'a>>)> {
    let mut r = None;
    for i in it {
        if let Item::Enum(x, a, v) = i {
            if eq(x, n) {
                rt::check(r.is_none(), "type generated more than once");
                r = Some((a, v));
            }
        }
    }
    r
}
pub fn find_struct<'a, 'b>(it: &'b [Item<'a>], n: &[u8]) -> Option<(&'b B, &'b Vec<Field<'a>>)> {
    let mut r = None;
    for i in it {
        if let Item::Struct(x, a, v) = i {
            if eq(x, n) {
                rt::check(r.is_none(), "type generated more than once");
                r = Some((a, v));
            }
        }
    }
    r
}
/// body of the `impl` whose head has the words, without spaces and paths
pub fn find_impl<'a, 'b>(it: &'b [Item<'a>], head: &[u8]) -> Option<&'b Ts<'a>> {
    for i in it {
        if let Item::Impl(x, b) = i {
            if eq(&shape(&lex(x)).0, head) {
                return Some(b);
            }
        }
    }
    None
}
pub fn contains(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    while i + b.len() <= a.len() {
        if eq(&a[i..i + b.len()], b) {
            return true;
        }
        i += 1;
    }
    false
}
/// the constant's name or the enumerator's name in CamelCase for the fixed names in use here
pub fn camel(n: &str) -> B {
    let mut o = vec![];
    let mut up = true;
    let under = n.contains('_');
    for c in n.bytes() {
        if c == b'_' {
            up = true;
        } else {
            o.push(if up { c.to_ascii_uppercase() } else if under { c.to_ascii_lowercase() } else { c });
            up = false;
        }
    }
    o
}

entries!(
    g10_order, g10_order_modes, g10_other, g10_other_modes, g10_none, g01_any1, g01_any2, g01_any2_modes, g01_any3, g01_refs, g01_names, g01_names_modes, g01_numbers, g01_numbers_modes, g02_values, g02_two, g02_long, g02_long_deep, g02_gap, g02_gap_deep, g02_many, g02_many_deep, g03_int, g03_many, g03_many_deep, g03_bool, g03_bool_number, g03_enum, g03_long, g03_int_deep, g03_bool_deep, g03_enum_deep,
    g03_long_deep, g04_forms, g04_multi, g04_self, g05_const, g05_bound, g05_long, g06_alias, g06_alias2, g06_kept, g06_names, g03_names, g04_names, g05_names, g07_struct, g07_struct5, g07_enum, g07_enum5, g07_union, g07_const, g08_enum, g08_enum_long, g08_int, g08_of_enum, g08_int_deep, g08_of_enum_deep, g08_bool, g08_long, g08_many, g09_two, g09_three, g09_two_deep, g09_three_deep
);
