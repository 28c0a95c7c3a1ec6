//! Definitions that lead back to themselves.
use super::g08::default_of;
use super::*;

/// `$0` name, `$1` and `$2` declarations
const KINDS: &[&str] = &[
    "struct $0 { int k; $1; };",
    "union $0 switch (int d) { case 0: $1; case 1: void; };",
    "union $0 switch (bool d) { case TRUE: $1; default: $2; };",
    "typedef $1; ",
    "struct $0 { $1; $2; };",
    "union $0 switch (unsigned d) { case 3: $1; default: $2; };",
    "union $0 switch (bool d) { case FALSE: $1; case TRUE: $2; };",
];
/// `$0` type, `$1` name
const FORMS: &[&str] = &["$0 $1", "$0 *$1", "$0 $1[2]", "$0 $1<>"];
const NAMES: [&[u8]; 3] = [b"a", b"b", b"c"];

/// indexes of the types the expression holds by value; `all`: also behind boxes, but not behind options
fn held(t: &[&[u8]], all: bool, o: &mut [bool; 3]) {
    let mut i = 0;
    while i < t.len() {
        let skip = eq(t[i], b"Vec") || eq(t[i], if all { b"Option" } else { b"Box" });
        if skip && i + 1 < t.len() && eq(t[i + 1], b"<") {
            let mut d = 0usize;
            i += 1;
            while i < t.len() {
                if eq(t[i], b"<") {
                    d += 1;
                }
                if eq(t[i], b">") {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                i += 1;
            }
        } else if i == 0 || !eq(t[i - 1], b"::") {
            for k in 0..3 {
                o[k] |= t[i].len() == 1 && t[i][0] == b'A' + k as u8;
            }
        }
        i += 1;
    }
}
fn closed(e: &mut [[bool; 3]; 3]) {
    for k in 0..3 {
        for i in 0..3 {
            for j in 0..3 {
                e[i][j] |= e[i][k] && e[k][j];
            }
        }
    }
}
/// what the generated types hold by value
fn edges(it: &[Item], all: bool) -> [[bool; 3]; 3] {
    let mut e = [[false; 3]; 3];
    for k in 0..3 {
        let n = [b'A' + k as u8];
        for i in it {
            match i {
                Item::Type(x, t) if eq(x, &n) => held(t, all, &mut e[k]),
                Item::Struct(x, _, fs) if eq(x, &n) => {
                    for f in fs {
                        held(&f.ty, all, &mut e[k]);
                    }
                }
                Item::Enum(x, _, vs) if eq(x, &n) => {
                    for v in vs {
                        for p in &v.payload {
                            held(p, all, &mut e[k]);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    closed(&mut e);
    e
}
/// whether the arm's value has a value of type k in every case
fn leads(v: &Var, k: usize, e: &[[bool; 3]; 3]) -> bool {
    let mut o = [false; 3];
    for p in &v.payload {
        held(p, true, &mut o);
    }
    o[k] || (0..3).any(|j| o[j] && e[j][k])
}
fn finite(s: &str) {
    let t = lex(s.as_bytes());
    let it = items(&t);
    let e = edges(&it, false);
    for k in 0..3 {
        rt::check(!e[k][k], "type that holds itself by value");
    }
    let e = edges(&it, true);
    for k in 0..3 {
        let n = [b'A' + k as u8];
        let Some((_, vs)) = find_enum(&it, &n) else { continue };
        let Some(d) = default_of(&it, &n) else {
            rt::fail("union without default");
            continue;
        };
        for v in vs {
            if eq(&v.name, d[0]) && leads(v, k, &e) {
                rt::check(vs.iter().all(|v| leads(v, k, &e)), "default leads back to its own type though an arm does not");
                rt::reach("endless");
            }
        }
    }
    rt::reach("generated");
}
/// definitions a, b and perhaps c, each referring to any name
fn cycle(kinds: &[usize], n: usize, forms: &[usize], mode: fn() -> M) {
    let mut x = vec![];
    let mut alias: [Option<u8>; 3] = [None; 3];
    for i in 0..n {
        let k = KINDS[kinds[rt::upto(kinds.len())]];
        let r = hole(1, |c| c >= b'a' && c <= b'd');
        let f = FORMS[forms[rt::upto(forms.len())]];
        let ty = k.as_bytes()[0] == b't';
        if ty {
            alias[i] = Some(r[0]);
        }
        let d = fill(f, &[&r, if ty { NAMES[i] } else { b"m" }]);
        // the other one: an option or an array of the next definition, or an alias of it
        let o = fill(if forms.len() > 2 { "$0 o" } else { "$0 *o" }, &[NAMES[(i + 1) % n]]);
        x.extend(fill(k, &[NAMES[i], &d, &o]));
    }
    let m = mode();
    // aliases of themselves
    let mut round = false;
    for i in 0..n {
        let mut j = i;
        for _ in 0..n {
            let Some(r) = alias[j] else { break };
            if r < b'a' || (r - b'a') as usize >= n {
                break;
            }
            j = (r - b'a') as usize;
            if j == i {
                round = true;
                break;
            }
        }
    }
    match of(x, m) {
        Some(s) => {
            rt::check(!round, "alias of itself generated");
            finite(&s)
        }
        None => {
            rt::check(round, "definitions refused");
            rt::reach("refused")
        }
    }
}
fn modes() -> M {
    let k = rt::upto(3);
    M { t: k != 1, ei: k == 1, es: k == 2, ui: k == 1, uu: k == 2 }
}
fn one() -> M {
    M { t: true, ei: false, es: true, ui: false, uu: true }
}
#[unsafe(no_mangle)]
pub fn g09_two() {
    cycle(&[0, 1, 2, 3], 2, &[0, 1, 2, 3], modes)
}
#[unsafe(no_mangle)]
pub fn g09_three() {
    cycle(&[0, 1, 3], 3, &[0, 1], one)
}
#[unsafe(no_mangle)]
pub fn g09_two_deep() {
    cycle(&[0, 1, 2, 3, 4, 5, 6], 2, &[0, 1, 2, 3], modes)
}
#[unsafe(no_mangle)]
pub fn g09_three_deep() {
    cycle(&[0, 1, 2, 3], 3, &[0, 1, 2], one)
}
