//! Unions.
use super::g02::{V, by_name, by_value, variant};
use super::*;
use V::*;

/// declarations of an arm with the type generated for them (`#`: array length 3)
pub const ARMS: &[(&str, &str)] = &[
    ("void", ""),
    ("int m", "i32"),
    ("string m<>", "String"),
    ("opaque m<>", "opaque"),
    ("opaque m[3]", "opaque3"),
    ("r m", "R"),
    ("unsigned hyper *m", "Option<u64>"),
    ("bool m[3]", "[bool;#]"),
    ("s m<>", "Vec<S>"),
    ("a m", "i16"),
    ("o m", "opaque"),
    ("o m<>", "Vec<VariableArray>"),
    ("x m", "opaque3"),
];
pub const EXTRA: &str = "enum r { RA = 0 }; struct s { int y; }; typedef short a; typedef opaque o<>; typedef opaque x[3];";

#[derive(Clone, Copy, PartialEq)]
pub enum C {
    Int,
    Uns,
    Bool,
    Enum,
}
/// the payload is the one of arm p
fn payload_is(p: usize, attr: &[u8], ty: &[Ts], m: M) -> bool {
    let want = ARMS[p].1.as_bytes();
    if want.is_empty() {
        return ty.is_empty() && attr.is_empty();
    }
    if ty.len() != 1 {
        return false;
    }
    let (sh, len, boxed) = shape(&ty[0]);
    if let Some(l) = len {
        let l = literal(&l);
        if !l.map_or(false, |l| !l.neg && l.mag == 3) {
            return false;
        }
    }
    if boxed {
        return false;
    }
    if eq(want, b"opaque") {
        return eq(&sh, b"VariableArray") && attr.is_empty() || (m.uc() && eq(&sh, b"Vec<u8>") && contains(attr, b"serde_xdr::opaque::variable"));
    }
    if eq(want, b"opaque3") {
        return eq(&sh, b"FixedArray<[u8;#]>") && attr.is_empty() || (m.uc() && eq(&sh, b"[u8;#]") && contains(attr, b"serde_xdr::opaque::fixed"));
    }
    attr.is_empty() && eq(&sh, want)
}
/// variant has payload p, behind the discriminant in union mode
fn arm_is(v: &Var, p: usize, cond: C, m: M) {
    let mut ty = &v.payload[..];
    if m.uu {
        let c: &[u8] = match cond {
            C::Int => b"i32",
            C::Uns => b"u32",
            C::Bool => b"bool",
            C::Enum => b"E",
        };
        if ty.is_empty() {
            return rt::fail("arm without discriminant");
        }
        rt::check(eq(&shape(&ty[0]).0, c), "discriminant of another type");
        ty = &ty[1..];
    }
    rt::check(payload_is(p, &v.attr, ty, m), "arm with another payload");
}
/// what the union's definition says: arms (value, payload), enumerators of `E`
pub struct Wants<'a> {
    pub cond: C,
    pub want: &'a [(u32, usize)],
    pub default: Option<usize>,
    pub names: &'a [(&'a str, i64)],
}
pub type Check = fn(&str, &Wants, M);
/// the generated union `U` has these arms
fn union_is(s: &str, w: &Wants, m: M) {
    let Wants { cond, want, default, names } = *w;
    let t = lex(s.as_bytes());
    let it = items(&t);
    let Some((attr, vs)) = find_enum(&it, b"U") else {
        return rt::fail("union not generated");
    };
    let listed: Vec<u32> = want.iter().map(|w| w.0).collect();
    // the bool value that is no case
    let missing = if cond == C::Bool { (0..2u32).find(|w| !listed.contains(w)) } else { None };
    let all = cond == C::Bool && missing.is_none();
    let dflt = variant(vs, b"Default");
    if default.is_none() {
        rt::check(dflt.is_none(), "default arm without a default");
    }
    if let Some(p) = default {
        match dflt {
            Some((_, v)) => arm_is(v, p, cond, m),
            None => rt::fail("no default arm"),
        }
    }
    if m.uc() {
        rt::check(contains(attr, b"Serialize") && contains(attr, b"Deserialize"), "union without codec");
        for (w, p) in want {
            match vs.get(*w as usize) {
                Some(v) => arm_is(v, *p, cond, m),
                None => rt::fail("no arm at the case value"),
            }
        }
        for (i, v) in vs.iter().enumerate() {
            if want.iter().any(|(w, _)| *w as usize == i) {
                rt::check(!eq(&v.name, b"Default"), "default arm at a case value");
                continue;
            }
            if eq(&v.name, b"Default") {
                rt::check(cond == C::Bool || i + 1 == vs.len(), "default arm before case values");
                continue;
            }
            rt::check(v.name[0] == b'_' && v.payload.is_empty(), "arm at a value that is no case");
        }
        rt::check(cond != C::Bool || vs.len() <= 2 + (all && default.is_some()) as usize, "too many arms");
    } else {
        rt::check(vs.len() == want.len() + default.is_some() as usize, "number of arms differs from the number of case values");
    }
    if m.ui {
        rt::check(contains(attr, b"XdrIndexer"), "union without index codec");
        let Some(b) = find_impl(&it, b"XdrIndexer for U") else {
            return rt::fail("union without indexes");
        };
        let (Some(f), Some(g)) = (arms(b, b"name_by_index"), arms(b, b"index")) else {
            return rt::fail("index is no match");
        };
        for (w, p) in want {
            match by_value(&f, *w) {
                Ok(n) => {
                    rt::check(by_name(&g, n).map_or(false, |l| l.word() == *w), "index of the arm differs from the case value");
                    match variant(vs, n) {
                        Some((_, v)) => arm_is(v, *p, cond, m),
                        None => rt::fail("case value names no arm"),
                    }
                }
                Err(_) => rt::fail("case value without arm"),
            }
        }
        if !all {
            match missing.map_or_else(|| by_other(&f, &listed), |w| by_value(&f, w)) {
            Ok(n) => {
                rt::check(default.is_some() && eq(n, b"Default"), "value that is no case selects an arm");
                if cond == C::Bool {
                    rt::check(by_name(&g, n).map_or(false, |l| Some(l.word()) == missing), "index of the default arm differs");
                }
            }
            Err(k) => rt::check(k && default.is_none(), "value that is no case does not select the default arm"),
            }
        }
    }
    if m.uu {
        rt::check(contains(attr, b"XdrUnion"), "union without value codec");
        let head: &[u8] = match cond {
            C::Int => b"XdrUnion<i32>for U",
            C::Uns => b"XdrUnion<u32>for U",
            C::Bool => b"XdrUnion<bool>for U",
            C::Enum => b"XdrUnion<E>for U",
        };
        let Some(b) = find_impl(&it, head) else {
            return rt::fail("union without values");
        };
        let Some(f) = arms(b, b"name_by_value") else {
            return rt::fail("value is no match");
        };
        for (w, p) in want {
            match by_cond(&f, cond, *w, names) {
                Ok(n) => match variant(vs, n) {
                    Some((_, v)) => arm_is(v, *p, cond, m),
                    None => rt::fail("case value names no arm"),
                },
                Err(_) => rt::fail("case value without arm"),
            }
        }
        let mut rest = vec![];
        if cond == C::Enum {
            for n in names {
                if !listed.contains(&(n.1 as u32)) {
                    rest.push(by_cond(&f, cond, n.1 as u32, names));
                }
            }
        } else if let Some(w) = missing {
            rest.push(by_cond(&f, cond, w, names));
        } else if cond != C::Bool {
            rest.push(by_other(&f, &listed));
        }
        for r in rest {
            match r {
                Ok(n) => rt::check(default.is_some() && eq(n, b"Default"), "value that is no case selects an arm"),
                Err(k) => rt::check(k && default.is_none(), "value that is no case does not select the default arm"),
            }
        }
    }
    rt::reach("generated");
}
/// name the arms give for the discriminant
pub fn by_cond<'a>(f: &Arms<'a>, cond: C, w: u32, names: &[(&str, i64)]) -> Result<&'a [u8], bool> {
    if cond != C::Enum && cond != C::Bool {
        return by_value(f, w);
    }
    for (p, x) in f {
        for q in alts(p) {
            let hit = if q.len() == 1 && eq(q[0], b"_") {
                true
            } else if cond == C::Bool {
                match last(q) {
                    Some(b) if eq(b, b"true") => w == 1,
                    Some(b) if eq(b, b"false") => w == 0,
                    _ => return Err(false),
                }
            } else {
                match last(q) {
                    Some(b) => {
                        let mut r = false;
                        for (n, v) in names {
                            r |= eq(&camel(n), b) && *v as u32 == w;
                        }
                        r
                    }
                    None => return Err(false),
                }
            };
            if hit {
                if x.len() > 1 && eq(x[0], b"Err") {
                    return Err(true);
                }
                return named(x).ok_or(false);
            }
        }
    }
    Err(false)
}
pub struct U {
    t: &'static str,
    cond: C,
    /// value and payload: 1 is `$1`, 2 is `$2`
    arms: &'static [(V, usize)],
    names: &'static [(&'static str, V)],
}
/// `$0` number, `$1` and `$2` arms, `$3` default
pub const INT: &[U] = &[
    U { t: "union u switch (int c) { case $0: $1; $3 };", cond: C::Int, arms: &[(H(0), 1)], names: &[] },
    U { t: "union u switch (int c) { case 4: $1; case $0: $2; $3 };", cond: C::Int, arms: &[(L(4), 1), (H(0), 2)], names: &[] },
    U { t: "union u switch (unsigned int c) { case $0: $1; case 0: $2; $3 };", cond: C::Uns, arms: &[(H(0), 1), (L(0), 2)], names: &[] },
    U { t: "union u switch (unsigned c) { case 3: case $0: $1; case 1: $2; $3 };", cond: C::Uns, arms: &[(H(0), 1), (L(3), 1), (L(1), 2)], names: &[] },
    U { t: "union u switch (int c) { case $0: case 3: case 5: $1; case 1: $2; $3 };", cond: C::Int, arms: &[(H(0), 1), (L(3), 1), (L(5), 1), (L(1), 2)], names: &[] },
    U { t: "const K = $0; union u switch (int c) { case K: $1; case 2: $2; $3 };", cond: C::Int, arms: &[(H(0), 1), (L(2), 2)], names: &[] },
    U { t: "union u switch (unsigned int c) { case 2: $2; case K: $1; $3 }; const K = L; const L = $0;", cond: C::Uns, arms: &[(H(0), 1), (L(2), 2)], names: &[] },
    U { t: "typedef t i; union u switch (i c) { case $0: $1; case 2: $2; $3 }; typedef int t;", cond: C::Int, arms: &[(H(0), 1), (L(2), 2)], names: &[] },
    U { t: "enum q { X = $0, Y = 2 }; union u switch (int c) { case X: $1; case Y: $2; $3 };", cond: C::Int, arms: &[(H(0), 1), (L(2), 2)], names: &[] },
];
pub const ENUM: &[U] = &[
    U { t: "enum e { A = $0, B = 3 }; union u switch (e c) { case A: $1; $3 };", cond: C::Enum, arms: &[(H(0), 1)], names: &[("A", H(0)), ("B", L(3))] },
    U { t: "enum e { A = $0, B = 3 }; union u switch (e c) { case B: $1; case A: $2; $3 };", cond: C::Enum, arms: &[(L(3), 1), (H(0), 2)], names: &[("A", H(0)), ("B", L(3))] },
    U { t: "union u switch (e c) { case A: case C: $1; $3 }; enum e { C = 1, A = $0, B = 3 };", cond: C::Enum, arms: &[(L(1), 1), (H(0), 1)], names: &[("A", H(0)), ("B", L(3)), ("C", L(1))] },
    U { t: "enum e { A = 2, B = K }; const K = $0; union u switch (e c) { case A: $1; case B: $2; $3 };", cond: C::Enum, arms: &[(L(2), 1), (H(0), 2)], names: &[("A", L(2)), ("B", H(0))] },
    U { t: "enum e { A = $0, B = 3 }; union u switch (e c) { case $0: $1; case 3: $2; $3 };", cond: C::Enum, arms: &[(H(0), 1), (L(3), 2)], names: &[("A", H(0)), ("B", L(3))] },
    U { t: "enum e { A = $0, B = 3 }; const K = 3; union u switch (e c) { case A: $1; case K: $2; $3 };", cond: C::Enum, arms: &[(H(0), 1), (L(3), 2)], names: &[("A", H(0)), ("B", L(3))] },
    U { t: "enum e { A = $0, B = 3 }; typedef e f; typedef f g; union u switch (g c) { case A: $1; case B: $2; $3 };", cond: C::Enum, arms: &[(H(0), 1), (L(3), 2)], names: &[("A", H(0)), ("B", L(3))] },
    U { t: "enum e { A = 1, B = 3 }; union u switch (e c) { case $0: $1; $3 };", cond: C::Enum, arms: &[(H(0), 1)], names: &[("A", L(1)), ("B", L(3))] },
];
/// value of a label, None if it is no 32-bit unsigned number
fn label(v: V, h: N) -> Option<u32> {
    match v {
        H(_) => u32_of(h),
        L(v) => Some(v as u32),
    }
}
pub fn union_of(u: &U, t: &[u8], n: N, p: usize, d: Option<usize>, mode: fn() -> M, check: Check) {
    let q = (p + 3) % ARMS.len();
    let mut df = vec![];
    if let Some(d) = d {
        df = fill("default: $0;", &[ARMS[d].0.as_bytes()]);
    }
    let mut x = fill(u.t, &[t, ARMS[p].0.as_bytes(), ARMS[q].0.as_bytes(), &df]);
    x.extend_from_slice(EXTRA.as_bytes());
    let Some(defs) = parsed(x) else {
        return rt::fail("well-formed definitions rejected");
    };
    // what the definition says; a negative label need not be supported, but is never wrong
    let mut want = vec![];
    let mut ok = true;
    let mut may = true;
    for (v, a) in u.arms {
        match label(*v, n) {
            Some(w) => {
                ok &= !want.iter().any(|(x, _)| *x == w);
                want.push((w, if *a == 1 { p } else { q }));
            }
            None => {
                ok = false;
                may &= matches!(n, N::Neg(_)) && u.cond == C::Int;
                if let N::Neg(k) = n {
                    want.push((k.wrapping_neg(), if *a == 1 { p } else { q }));
                }
            }
        }
    }
    let dup = want.iter().enumerate().any(|(i, (w, _))| want[..i].iter().any(|(x, _)| x == w));
    may &= !dup;
    if u.cond != C::Uns && want.iter().any(|(w, _)| *w > i32::MAX as u32) && !matches!(n, N::Neg(_)) {
        ok = false;
        may = false;
    }
    let mut names = vec![];
    for (i, v) in u.names {
        match g02::val(*v, &[n]) {
            Some(v) => {
                if names.iter().any(|(_, x)| *x == v) {
                    ok = false;
                    may = false;
                }
                names.push((*i, v))
            }
            None => {
                ok = false;
                may = false;
            }
        }
    }
    // the enumerators of the other enum
    if contains(u.t.as_bytes(), b"enum q") && i32_of(n).is_none() {
        ok = false;
        may = false;
    }
    if u.cond == C::Enum {
        for (w, _) in &want {
            if !names.iter().any(|(_, v)| *v == *w as i32 as i64) {
                // a label that names no enumerator
                ok = false;
                may = false;
            }
        }
    }
    let m = mode();
    if m.uc() || (m.ec() && contains(u.t.as_bytes(), b"enum")) {
        // complement mode: the output grows with the values
        if let N::Pos(v) = n {
            rt::assume(v <= 200 || v > u32::MAX as u64);
        }
        if let N::Neg(_) = n {
            ok = false;
            may = false;
        }
    }
    match generate(defs, m) {
        Some(s) => {
            rt::check(ok || may, "union generated that cannot be expressed");
            check(&s, &Wants { cond: u.cond, want: &want, default: d, names: &names }, m)
        }
        None => {
            rt::check(!ok, "union refused");
            rt::reach("refused")
        }
    }
}
/// an arm and a default: any, or a few depending on the context
pub fn payloads(c: usize, all: bool) -> (usize, Option<usize>) {
    let p = if all { rt::upto(ARMS.len()) } else { (3 * c + rt::upto(3)) % ARMS.len() };
    let d = match rt::upto(3) {
        0 => None,
        1 => Some((p + 5) % ARMS.len()),
        _ => Some(0),
    };
    (p, d)
}
fn unions(us: &[U], all: bool) {
    let c = rt::upto(us.len());
    let (t, n) = short(1);
    let (p, d) = payloads(c, all);
    union_of(&us[c], &t, n, p, d, union_mode, union_is)
}
#[unsafe(no_mangle)]
pub fn g03_int() {
    unions(INT, false)
}
#[unsafe(no_mangle)]
pub fn g03_int_deep() {
    unions(INT, true)
}
#[unsafe(no_mangle)]
pub fn g03_enum() {
    unions(ENUM, false)
}
#[unsafe(no_mangle)]
pub fn g03_enum_deep() {
    unions(ENUM, true)
}
pub fn long_unions(pick: &[usize], mode: fn() -> M, check: Check) {
    let i = pick[rt::upto(pick.len())];
    let u = if i < INT.len() { &INT[i] } else { &ENUM[i - INT.len()] };
    let (t, n) = num();
    let d = if pick.len() < 9 && i % 4 == 0 || pick.len() > 8 && rt::upto(2) == 0 { None } else { Some(2) };
    union_of(u, &t, n, 1, d, mode, check)
}
#[unsafe(no_mangle)]
pub fn g03_long() {
    long_unions(&[0, 2, 6, 8, 10, 12, 13], || {
        let e = rt::upto(3);
        M { t: true, ei: e == 1, es: e == 2, ui: e == 1, uu: e == 2 }
    }, union_is)
}
#[unsafe(no_mangle)]
pub fn g03_long_deep() {
    long_unions(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], union_mode, union_is)
}
/// labels of the arms: 0 none, 1 FALSE, 2 TRUE
const BOOL: &[(&str, &[(u32, usize)])] = &[
    ("union u switch (bool c) { case TRUE: $1; $3 };", &[(1, 1)]),
    ("union u switch (bool c) { case FALSE: $1; $3 };", &[(0, 1)]),
    ("union u switch (bool c) { case TRUE: $1; case FALSE: $2; $3 };", &[(1, 1), (0, 2)]),
    ("union u switch (bool c) { case FALSE: $1; case TRUE: $2; $3 };", &[(0, 1), (1, 2)]),
    ("union u switch (bool c) { case TRUE: case FALSE: $1; $3 };", &[(1, 1), (0, 1)]),
    ("union u switch (bool c) { case FALSE: case TRUE: $1; $3 };", &[(0, 1), (1, 1)]),
    ("typedef bool b; union u switch (b c) { case TRUE: $1; $3 };", &[(1, 1)]),
    ("union u switch (bool c) { case $0: $1; $3 };", &[(2, 1)]),
    ("union u switch (bool c) { case TRUE: $1; case $0: $2; $3 };", &[(1, 1), (2, 2)]),
];
#[unsafe(no_mangle)]
pub fn g03_bool() {
    bools(false, union_is)
}
#[unsafe(no_mangle)]
pub fn g03_bool_deep() {
    bools(true, union_is)
}
pub fn bools(all: bool, check: Check) {
    let c = rt::upto(BOOL.len());
    let (t, a) = BOOL[c];
    let (p, d) = payloads(c, all);
    let q = (p + 3) % ARMS.len();
    // one character of a label replaced
    let mut l = if rt::upto(2) == 0 { b"TRUE".to_vec() } else { b"FALSE".to_vec() };
    if contains(t.as_bytes(), b"$0") {
        let at = rt::upto(l.len());
        l[at] = hole(1, |c| c.is_ascii_alphanumeric() || c == b'_')[0];
        rt::assume(at > 0 || !l[0].is_ascii_digit());
    }
    let mut df = vec![];
    if let Some(d) = d {
        df = fill("default: $0;", &[ARMS[d].0.as_bytes()]);
    }
    let mut x = fill(t, &[&l, ARMS[p].0.as_bytes(), ARMS[q].0.as_bytes(), &df]);
    x.extend_from_slice(EXTRA.as_bytes());
    let Some(defs) = parsed(x) else {
        return rt::fail("well-formed definitions rejected");
    };
    let mut want: Vec<(u32, usize)> = vec![];
    let mut ok = true;
    for (w, k) in a {
        let w = if *w == 2 {
            if eq(&l, b"TRUE") {
                1
            } else if eq(&l, b"FALSE") {
                0
            } else {
                ok = false;
                3
            }
        } else {
            *w
        };
        ok &= !want.iter().any(|x| x.0 == w);
        want.push((w, if *k == 1 { p } else { q }));
    }
    let both = want.len() == 2;
    let m = union_mode();
    match generate(defs, m) {
        Some(s) => {
            rt::check(ok, "union generated that cannot be expressed");
            check(&s, &Wants { cond: C::Bool, want: &want, default: d, names: &[] }, m)
        }
        None => {
            rt::check(!ok || (both && d.is_some()), "union refused");
            rt::reach("refused")
        }
    }
}
/// numbers as labels of bool: refused, or the arm of that value
const NUMBERED: &[(&str, &[(u32, usize)])] = &[
    ("union u switch (bool c) { case $0: $1; $3 };", &[(2, 1)]),
    ("union u switch (bool c) { case TRUE: $1; case $0: $2; $3 };", &[(1, 1), (2, 2)]),
    ("union u switch (bool c) { case $0: $2; case FALSE: $1; $3 };", &[(2, 2), (0, 1)]),
    ("const K = $0; union u switch (bool c) { case K: $1; case TRUE: $2; $3 };", &[(2, 1), (1, 2)]),
    ("enum e { FALSE = $0 }; union u switch (e c) { case FALSE: $1; $3 };", &[]),
];
#[unsafe(no_mangle)]
pub fn g03_bool_number() {
    bool_numbers(union_is)
}
pub fn bool_numbers(check: Check) {
    let (t, a) = NUMBERED[rt::upto(NUMBERED.len())];
    let (p, d) = payloads(0, false);
    let q = (p + 3) % ARMS.len();
    let (l, n) = short(1);
    let mut df = vec![];
    if let Some(d) = d {
        df = fill("default: $0;", &[ARMS[d].0.as_bytes()]);
    }
    let mut x = fill(t, &[&l, ARMS[p].0.as_bytes(), ARMS[q].0.as_bytes(), &df]);
    x.extend_from_slice(EXTRA.as_bytes());
    let Some(defs) = parsed(x) else {
        return rt::fail("well-formed definitions rejected");
    };
    let v = match n {
        N::Pos(v) if v <= u32::MAX as u64 => Some(v as u32),
        N::Neg(0) => Some(0),
        _ => None,
    };
    let m = union_mode();
    let Some(s) = generate(defs, m) else {
        return rt::reach("refused");
    };
    let Some(v) = v else {
        return rt::reach("other");
    };
    if a.len() == 0 {
        // no bool: the name means its enumerator
        let want = [(v, p)];
        return check(&s, &Wants { cond: C::Enum, want: &want, default: d, names: &[("FALSE", v as i64)] }, m);
    }
    let mut want: Vec<(u32, usize)> = vec![];
    for (w, k) in a {
        let w = if *w == 2 { v } else { *w };
        rt::check(w < 2 && !want.iter().any(|x| x.0 == w), "union generated that cannot be expressed");
        want.push((w, if *k == 1 { p } else { q }));
    }
    check(&s, &Wants { cond: C::Bool, want: &want, default: d, names: &[] }, m)
}
/// many labels in any order on several arms, one with any digit; wide gaps
pub fn many(n: usize, base: usize, check: Check) {
    let step = [1, 7, n - 1][rt::upto(3)];
    let at = [0, n / 2, n - 1][rt::upto(3)];
    let per = 1 + 2 * rt::upto(2);
    let cond = [C::Int, C::Uns, C::Enum][rt::upto(3)];
    let dig = hole(1, |c| c.is_ascii_digit())[0];
    let mut en = b"enum e { ".to_vec();
    let mut x = b"union u switch (".to_vec();
    x.extend_from_slice(match cond {
        C::Int => b"int",
        C::Uns => b"unsigned",
        _ => b"e",
    });
    x.extend_from_slice(b" c) { ");
    let mut want = vec![];
    let mut kept = vec![];
    for i in 0..n {
        let mut v = base + 20 + (i * step) % n;
        let mut t = g02::spell(v);
        if i == at {
            let k = t.len() - 1;
            v = base + 10;
            t = g02::spell(v);
            t[k] = dig;
            v = v / 10 * 10 + (dig - b'0') as usize;
        }
        let mut k = b"N".to_vec();
        k.extend(g02::spell(i));
        en.extend_from_slice(&k);
        en.extend_from_slice(b" = ");
        en.extend_from_slice(&t);
        en.extend_from_slice(if i + 1 < n { b", " } else { b" };" });
        x.extend_from_slice(b"case ");
        x.extend_from_slice(if cond == C::Enum { &k } else { &t });
        x.extend_from_slice(b": ");
        let p = [1, 0, 3][i / per % 3];
        if i % per == per - 1 || i == n - 1 {
            x.extend_from_slice(ARMS[p].0.as_bytes());
            x.extend_from_slice(b"; ");
        }
        want.push((v as u32, p));
        kept.push((text(k), v as i64));
    }
    let d = if rt::boolean() { Some(2) } else { None };
    if let Some(d) = d {
        x.extend(fill("default: $0;", &[ARMS[d].0.as_bytes()]));
    }
    x.extend_from_slice(b"};");
    if cond == C::Enum {
        x.extend(en);
    }
    let names: Vec<(&str, i64)> = if cond == C::Enum { kept.iter().map(|(n, v)| (n.as_str(), *v)).collect() } else { vec![] };
    let k = rt::upto(3);
    let m = M { t: true, ei: k == 1, es: k == 2, ui: k == 1, uu: k == 2 };
    match of(x, m) {
        Some(s) => check(&s, &Wants { cond, want: &want, default: d, names: &names }, m),
        None => rt::fail("union refused"),
    }
}
#[unsafe(no_mangle)]
pub fn g03_many() {
    many(11, 0, union_is)
}
#[unsafe(no_mangle)]
pub fn g03_many_deep() {
    let k = rt::upto(3);
    many([17, 33, 5][k], [0, 0, 600][k], union_is)
}
