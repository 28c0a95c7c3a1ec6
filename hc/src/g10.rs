//! Definitions among others.
use super::*;

/// `$0` a name, `$1` a number
const LISTS: &[&[&str]] = &[
    &["const $0 = $1;", "enum enu { enua = $0, enub = 13 };", "struct str { enu e; int m[$0]; };"],
    &["typedef str $0<$1>;", "struct str { $0 m; opaque k[kon]; };", "const kon = $1;"],
    &["enum $0 { enua = $1, enub = 13 };", "union uni switch ($0 c) { case enua: str m; default: int d; };", "struct str { $0 e; opaque o<3>; };"],
    &["union uni switch (int c) { case $1: $0 m; case 13: opaque v<>; };", "struct $0 { uni *n; als a; };", "typedef uni als<2>;"],
    &["typedef hyper $0;", "typedef $0 als;", "struct str { als k; $0 m[kon]; };", "enum enu { kon = $1 };"],
    &["union $0 switch (bool c) { case TRUE: $0 *n; case FALSE: als v; };", "typedef enu als;", "enum enu { enua = $1 };", "struct str { $0 m; string s<>; };"],
];
/// nothing to do with them; `$0` a name, `$1` a number
const OTHERS: &[&str] = &[
    "const $0 = $1;",
    "enum $0 { oth = $1, othb = 14 };",
    "enum other { $0 = $1 };",
    "struct $0 { int k; int oth[$1]; };",
    "typedef opaque $0[$1];",
    "union $0 switch (unsigned c) { case $1: int oth; default: void; };",
    "struct $0 { enum { $0o = $1 } k; };",
];
/// nothing to be generated
const NONE: &[&str] = &["program $0 { version vers { void proc(void) = $1; } = 1; } = $1;", "program prog { version $0 { str proc($0) = 1; enu procb(als) = 2; void procc(uni) = 3; } = $1; } = 7;", "\n%$0 = $1;\n", "/* const $0 = $1; */"];

/// items without `use`
fn parts<'a>(t: &[&'a [u8]]) -> Vec<B> {
    let mut v = vec![];
    let (mut a, mut d) = (0, 0usize);
    for (i, x) in t.iter().enumerate() {
        if x.len() == 1 {
            match x[0] {
                b'{' | b'(' | b'[' => d += 1,
                b'}' | b')' | b']' => d = d.saturating_sub(1),
                _ => {}
            }
            let imports = eq(t[a], b"use");
            if d == 0 && (x[0] == b';' || (x[0] == b'}' && !imports)) {
                if !imports {
                    v.push(join(&t[a..i + 1]));
                }
                a = i + 1;
            }
        }
    }
    rt::check(a == t.len(), "code that is no item");
    v
}
fn made(s: &str) -> Vec<B> {
    parts(&lex(s.as_bytes()))
}
/// the same items, each as often
fn same(a: &[B], b: &[B], what: &'static str) {
    let mut used = vec![false; b.len()];
    let mut ok = a.len() == b.len();
    for x in a {
        let mut hit = false;
        for (k, y) in b.iter().enumerate() {
            if !hit && !used[k] && eq(x, y) {
                used[k] = true;
                hit = true;
            }
        }
        ok &= hit;
    }
    rt::check(ok, what);
}
fn lower(c: u8) -> bool {
    c.is_ascii_lowercase()
}
fn small(c: u8) -> bool {
    c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'_'
}
/// a name of one or two characters and a number, of which one is arbitrary
fn varied() -> (Vec<u8>, Vec<u8>) {
    if rt::boolean() {
        (b"zz".to_vec(), hole(1, |c| c.is_ascii_digit()))
    } else {
        let mut n = hole(1, lower);
        n.extend(hole(rt::upto(2), small));
        (n, b"5".to_vec())
    }
}
fn text_of(l: &[&str], order: &[usize], n: &[u8], v: &[u8]) -> Vec<u8> {
    let mut x = vec![];
    for k in order {
        x.extend(fill(l[*k], &[n, v]));
    }
    x
}
/// the n-th order of `len`
fn permuted(len: usize, mut n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..len).collect();
    let mut o = vec![];
    while !left.is_empty() {
        let k = left.len();
        o.push(left.remove(n % k));
        n /= k;
    }
    o
}
fn in_order(mode: fn(usize) -> M) {
    let k = rt::upto(LISTS.len());
    let l = LISTS[k];
    let (n, v) = varied();
    let all = if l.len() == 3 { 6 } else { 24 };
    let p = 1 + rt::upto(all - 1);
    let m = mode(k + p);
    let p = permuted(l.len(), p);
    let id: Vec<usize> = (0..l.len()).collect();
    let (Some(a), Some(b)) = (parsed(text_of(l, &id, &n, &v)), parsed(text_of(l, &p, &n, &v))) else {
        return rt::fail("well-formed definitions rejected");
    };
    match (generate(a, m), generate(b, m)) {
        (Some(a), Some(b)) => {
            same(&made(&a), &made(&b), "other code in another order");
            rt::reach("generated")
        }
        (None, None) => rt::reach("refused"),
        _ => rt::fail("refused in one order only"),
    }
}
fn mode3(k: usize) -> M {
    let k = k % 3;
    M { t: k != 1, ei: k == 1, es: k == 2, ui: k == 2, uu: k == 1 }
}
#[unsafe(no_mangle)]
pub fn g10_order() {
    in_order(mode3)
}
#[unsafe(no_mangle)]
pub fn g10_order_modes() {
    in_order(|_| M { t: rt::boolean(), ..union_mode() })
}
fn with_other(mode: fn(usize) -> M) {
    let k = rt::upto(LISTS.len());
    let l = LISTS[k];
    let o = rt::upto(OTHERS.len());
    let (n, v) = varied();
    let m = mode(k + o);
    let o = OTHERS[o];
    let at = rt::upto(2) * l.len();
    let id: Vec<usize> = (0..l.len()).collect();
    let list = text_of(l, &id, b"yyy", b"3");
    let other = fill(o, &[&n, &v]);
    let mut both = text_of(l, &id[..at], b"yyy", b"3");
    both.extend_from_slice(&other);
    both.extend(text_of(l, &id[at..], b"yyy", b"3"));
    let (Some(a), Some(b), Some(c)) = (parsed(list), parsed(other), parsed(both)) else {
        return rt::fail("well-formed definitions rejected");
    };
    match (generate(a, m), generate(b, m), generate(c, m)) {
        (Some(a), Some(b), Some(c)) => {
            let mut x = made(&a);
            x.extend(made(&b));
            same(&x, &made(&c), "other code beside another definition");
            rt::reach("generated")
        }
        (Some(_), Some(_), None) => rt::fail("refused together only"),
        (_, _, c) => {
            rt::check(c.is_none(), "refused alone only");
            rt::reach("refused")
        }
    }
}
#[unsafe(no_mangle)]
pub fn g10_other() {
    with_other(mode3)
}
#[unsafe(no_mangle)]
pub fn g10_other_modes() {
    with_other(|_| M { t: rt::boolean(), ..union_mode() })
}
/// programs, lines for the output and comments generate nothing
#[unsafe(no_mangle)]
pub fn g10_none() {
    let k = rt::upto(LISTS.len());
    let l = LISTS[k];
    let o = rt::upto(NONE.len());
    let (n, v) = varied();
    let m = mode3(k + o);
    let o = NONE[o];
    let at = rt::upto(2) * l.len();
    let id: Vec<usize> = (0..l.len()).collect();
    let y = [&n[..], b"yyy"][rt::upto(2)].to_vec();
    let list = text_of(l, &id, &y, b"3");
    let mut both = text_of(l, &id[..at], &y, b"3");
    both.extend(fill(o, &[&n, &v]));
    both.extend(text_of(l, &id[at..], &y, b"3"));
    let (Some(a), Some(c)) = (parsed(list), parsed(both)) else {
        return rt::fail("well-formed definitions rejected");
    };
    match (generate(a, m), generate(c, m)) {
        (Some(a), Some(c)) => {
            rt::check(eq(&join(&lex(a.as_bytes())), &join(&lex(c.as_bytes()))), "other code beside what generates none");
            rt::reach("generated")
        }
        _ => rt::fail("refused"),
    }
}
