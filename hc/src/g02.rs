//! Enums and constants.
use super::*;

/// where the value of an enumerator comes from
#[derive(Clone, Copy)]
pub enum V {
    /// hole
    H(usize),
    L(i64),
}
use V::*;
pub fn val(v: V, h: &[N]) -> Option<i64> {
    match v {
        H(i) => i32_of(h[i]),
        L(v) => Some(v),
    }
}
/// definitions with an enum `e` and its enumerators
pub const ENUMS: &[(&str, &[(&str, V)])] = &[
    ("enum e { A = $0 };", &[("A", H(0))]),
    ("enum e { FIRST_ONE = 3, B = $0, C = 7 };", &[("FIRST_ONE", L(3)), ("B", H(0)), ("C", L(7))]),
    ("const K = $0; enum e { A = K, B = 2 };", &[("A", H(0)), ("B", L(2))]),
    ("enum e { B = 2, A = K }; const K = $0; const J = 9;", &[("A", H(0)), ("B", L(2))]),
    ("const L = $0; const K = L; enum e { Ab = K, B = 5 };", &[("Ab", H(0)), ("B", L(5))]),
    ("const K = L; enum e { A = K, B = 5 }; const L = $0;", &[("A", H(0)), ("B", L(5))]),
    ("enum f { X = $0, Y = 1 }; enum e { A = X, B = Y };", &[("A", H(0)), ("B", L(1))]),
    ("enum e { A = X, B = 4 }; enum f { X = $0 };", &[("A", H(0)), ("B", L(4))]),
    ("const K = X; enum f { X = $0 }; enum e { A = K, B = 4 };", &[("A", H(0)), ("B", L(4))]),
    ("enum e { A = $0, B = A };", &[("A", H(0)), ("B", H(0))]),
    ("typedef int t; struct s { int a; }; enum d { Q = 1 }; enum e { A = $0, B = 0 }; enum f { R = 3 };", &[("A", H(0)), ("B", L(0))]),
];
const PAIRS: &[(&str, &[(&str, V)])] = &[
    ("enum e { A = $0, B = $1 };", &[("A", H(0)), ("B", H(1))]),
    ("enum e { C = 4, B = $1, A = $0 };", &[("A", H(0)), ("B", H(1)), ("C", L(4))]),
    ("const A = $0; enum e { B = $1, C = A };", &[("B", H(1)), ("C", H(0))]),
    ("enum e { A = $0 }; enum f { A2 = $1 };", &[("A", H(0))]),
];

pub fn variant<'a, 'b>(vs: &'b [Var<'a>], n: &[u8]) -> Option<(usize, &'b Var<'a>)> {
    let mut r = None;
    for (i, v) in vs.iter().enumerate() {
        if eq(&v.name, n) {
            rt::check(r.is_none(), "variant generated more than once");
            r = Some((i, v));
        }
    }
    r
}
/// name the function gives for the value: Some(Err) if refused, None if not understood
pub fn by_value<'a>(arms: &Arms<'a>, w: u32) -> Result<&'a [u8], bool> {
    for (p, x) in arms {
        for q in alts(p) {
            let hit = if q.len() == 1 && eq(q[0], b"_") {
                true
            } else {
                match literal(q) {
                    Some(l) => l.word() == w,
                    None => return Err(false),
                }
            };
            if hit {
                if x.len() > 1 && eq(x[0], b"Err") {
                    return Err(true);
                }
                return match if has(x, b"stringify") { named(x) } else if x.len() > 1 && eq(x[0], b"Ok") { last(&x[2..]) } else { None } {
                    Some(n) => Ok(n),
                    None => Err(false),
                };
            }
        }
    }
    Err(false)
}
/// what the function gives for the values not listed; every literal arm must be for a listed one
pub fn by_other<'a>(arms: &Arms<'a>, listed: &[u32]) -> Result<&'a [u8], bool> {
    for (p, x) in arms {
        for q in alts(p) {
            if q.len() == 1 && eq(q[0], b"_") {
                if x.len() > 1 && eq(x[0], b"Err") {
                    return Err(true);
                }
                return named(x).ok_or(false);
            }
            match literal(q) {
                Some(l) => {
                    let w = l.word();
                    let mut hit = false;
                    for v in listed {
                        hit |= *v == w;
                    }
                    rt::check(hit, "arm for a value that is not listed");
                }
                None => return Err(false),
            }
        }
    }
    Err(false)
}
/// value the function gives for the variant
pub fn by_name(arms: &Arms, n: &[u8]) -> Option<rd::L> {
    for (p, x) in arms {
        for q in alts(p) {
            if q.len() == 1 && eq(q[0], b"_") {
                return literal(x);
            }
            if last(q).map_or(false, |l| eq(l, n)) {
                return literal(x);
            }
        }
    }
    None
}
/// the generated enum `E` has exactly these values, both ways
pub fn enum_is(s: &str, want: &[(&str, i64)], m: M) {
    let t = lex(s.as_bytes());
    let it = items(&t);
    let Some((attr, vs)) = find_enum(&it, b"E") else {
        return rt::fail("enum not generated");
    };
    let mut extra = 0usize;
    for v in vs {
        rt::check(v.payload.is_empty(), "variant of an enum with data");
        if v.name[0] == b'_' {
            extra += 1;
        }
    }
    rt::check(m.ec() || extra == 0, "placeholder outside of complement mode");
    rt::check(vs.len() == want.len() + extra, "number of variants differs from the number of enumerators");
    for (n, v) in want {
        let n = camel(n);
        let Some((i, g)) = variant(vs, &n) else {
            return rt::fail("enumerator without variant");
        };
        match &g.disc {
            Some(d) => rt::check(d.int() == *v, "variant has another value than the enumerator"),
            None => rt::check(m.ec() && i as i64 == *v, "variant without the enumerator's value"),
        }
        if m.ec() {
            rt::check(i as i64 == *v, "position of the variant differs from the enumerator's value");
        }
    }
    if m.ec() {
        rt::check(contains(attr, b"Serialize") && contains(attr, b"Deserialize"), "enum without codec");
    }
    let listed: Vec<u32> = want.iter().map(|w| w.1 as u32).collect();
    if m.es {
        let (Some(a), Some(b)) = (find_impl(&it, b"AsRef<i32>for E"), find_impl(&it, b"TryFrom<i32>for E")) else {
            return rt::fail("enum without conversions");
        };
        let (Some(a), Some(b)) = (arms(a, b"as_ref"), arms(b, b"try_from")) else {
            return rt::fail("conversion is no match");
        };
        for (n, v) in want {
            let n = camel(n);
            rt::check(by_name(&a, &n).map_or(false, |l| l.int() == *v), "as_ref gives another value");
            rt::check(by_value(&b, *v as u32).map_or(false, |x| eq(x, &n)), "try_from gives another enumerator");
        }
        rt::check(by_other(&b, &listed) == Err(true), "try_from accepts an unlisted value");
    }
    if m.es && !m.ei {
        rt::check(find_impl(&it, b"Serialize for E").map_or(false, |b| has(b, b"signed32")), "enum not encoded by its value");
        let de = it.iter().any(|i| matches!(i, Item::Impl(h, b) if contains(h, b"Deserialize<") && contains(h, b"for E") && has(b, b"signed32")));
        rt::check(de, "enum not decoded by its value");
    }
    if m.ei {
        rt::check(contains(attr, b"XdrIndexer"), "enum without index codec");
        let Some(b) = find_impl(&it, b"XdrIndexer for E") else {
            return rt::fail("enum without indexes");
        };
        let (Some(f), Some(g)) = (arms(b, b"name_by_index"), arms(b, b"index")) else {
            return rt::fail("index is no match");
        };
        for (n, v) in want {
            let n = camel(n);
            rt::check(by_name(&g, &n).map_or(false, |l| l.int() == *v), "index differs from the enumerator's value");
            rt::check(by_value(&f, *v as u32).map_or(false, |x| eq(x, &n)), "index gives another enumerator");
        }
    }
    rt::reach("generated");
}
fn enum_of(c: &(&str, &[(&str, V)]), t: &[&[u8]], h: &[N]) {
    enum_wants(c, t, h, enum_is)
}
pub fn enum_wants(c: &(&str, &[(&str, V)]), t: &[&[u8]], h: &[N], check: fn(&str, &[(&str, i64)], M)) {
    let d = fill(c.0, t);
    let d = match parsed(d) {
        Some(d) => d,
        None => return rt::fail("well-formed definitions rejected"),
    };
    let mut want = vec![];
    let mut ok = true;
    for (n, v) in c.1 {
        match val(*v, h) {
            Some(v) => {
                ok &= !want.iter().any(|(_, w)| *w == v);
                want.push((*n, v));
            }
            None => ok = false,
        }
    }
    // also the enumerators of the other enums
    for v in h {
        ok &= i32_of(*v).is_some();
    }
    let m = enum_mode();
    if m.ec() {
        // complement mode: the output grows with the values
        for v in h {
            match v {
                N::Pos(v) => rt::assume(*v <= if h.len() > 1 { 40 } else { 300 } || *v > i32::MAX as u64),
                _ => {}
            }
        }
        for v in h {
            ok &= i32_of(*v).map_or(false, |v| v >= 0);
        }
    }
    match generate(d, m) {
        Some(s) => {
            rt::check(ok, "enum generated that cannot be expressed");
            check(&s, &want, m)
        }
        None => {
            rt::check(!ok, "enum refused");
            rt::reach("refused")
        }
    }
}
#[unsafe(no_mangle)]
pub fn g02_values() {
    let c = &ENUMS[rt::upto(ENUMS.len())];
    let (t, n) = short(2);
    enum_of(c, &[&t], &[n])
}
#[unsafe(no_mangle)]
pub fn g02_long() {
    let c = &ENUMS[[0, 1, 4, 6, 8][rt::upto(5)]];
    let (t, n) = long();
    enum_of(c, &[&t], &[n])
}
#[unsafe(no_mangle)]
pub fn g02_long_deep() {
    let c = &ENUMS[rt::upto(ENUMS.len())];
    let (t, n) = long();
    enum_of(c, &[&t], &[n])
}
#[unsafe(no_mangle)]
pub fn g02_two() {
    let c = &PAIRS[rt::upto(PAIRS.len())];
    let (t, n) = short(1);
    let (u, k) = short(2);
    enum_of(c, &[&t, &u], &[n, k])
}

fn digit(c: u8) -> bool {
    c.is_ascii_digit()
}
pub fn spell(v: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut d = 1000;
    while d > 0 {
        if v >= d || d == 1 {
            o.push(b'0' + (v / d % 10) as u8);
        }
        d /= 10;
    }
    o
}
/// wide gaps in complement mode: any last digit
fn gap(from: &[usize], to: &[usize]) {
    let b = from[rt::upto(from.len())];
    let a = b + to[rt::upto(to.len())];
    let mut t = spell(a / 10);
    let d = hole(1, digit)[0];
    t.push(d);
    let v = (a / 10 * 10) as i64 + (d - b'0') as i64;
    let mut u = spell(b);
    let mut b = b;
    if rt::boolean() {
        u = b"0".to_vec();
        b = 0;
    }
    let s = of(fill(if rt::boolean() { "enum e { A = $0, B = $1 };" } else { "enum e { B = $1, A = $0 };" }, &[&u, &t]), M { t: true, ei: false, es: false, ui: false, uu: false });
    match s {
        Some(s) => enum_is(&s, &[("A", b as i64), ("B", v)], M { t: true, ei: false, es: false, ui: false, uu: false }),
        None => rt::fail("enum refused"),
    }
}
#[unsafe(no_mangle)]
pub fn g02_gap() {
    gap(&[1, 300], &[255, 512, 1024])
}
#[unsafe(no_mangle)]
pub fn g02_gap_deep() {
    gap(&[1, 300, 1023], &[255, 512, 999, 1024, 2048, 4096])
}
/// many enumerators in any order, one with any digit
fn many(n: usize) {
    let step = [1, 7, n - 1][rt::upto(3)];
    let at = [0, n / 2, n - 1][rt::upto(3)];
    let d = hole(1, digit)[0];
    let mut x = b"enum e { ".to_vec();
    let mut want = vec![];
    let mut names = vec![];
    for i in 0..n {
        let mut v = 20 + (i * step) % n;
        let mut t = spell(v);
        if i == at {
            t = vec![b'1', d];
            v = 10 + (d - b'0') as usize;
        }
        if i > 0 {
            x.extend_from_slice(b", ");
        }
        let mut k = b"N".to_vec();
        k.extend(spell(i));
        x.extend_from_slice(&k);
        x.extend_from_slice(b" = ");
        x.extend_from_slice(&t);
        names.push(text(k));
        want.push(v as i64);
    }
    x.extend_from_slice(b" };");
    let w: Vec<(&str, i64)> = names.iter().zip(&want).map(|(n, v)| (n.as_str(), *v)).collect();
    let m = enum_mode();
    match of(x, m) {
        Some(s) => enum_is(&s, &w, m),
        None => rt::fail("enum refused"),
    }
}
#[unsafe(no_mangle)]
pub fn g02_many() {
    many([17, 33][rt::upto(2)])
}
#[unsafe(no_mangle)]
pub fn g02_many_deep() {
    many([9, 65, 130][rt::upto(3)])
}

// ------------------------------------------------------------------ constants
/// definitions with constants and where their values come from
const CONSTS: &[(&str, &[(&str, V)])] = &[
    ("const A = $0;", &[("A", H(0))]),
    ("const A = 1; const long_name = $0; const C = 7;", &[("A", L(1)), ("long_name", H(0)), ("C", L(7))]),
    ("const A = $0; const B = A;", &[("A", H(0)), ("B", H(0))]),
    ("const B = A; const A = $0;", &[("A", H(0)), ("B", H(0))]),
    ("const D = B; const B = A; const C = 5; const A = $0;", &[("A", H(0)), ("B", H(0)), ("C", L(5)), ("D", H(0))]),
    ("enum e { X = 0, Y = $0 }; const A = Y; const B = A;", &[("A", H(0)), ("B", H(0))]),
    ("const A = Y; enum e { X = 1, Y = 7 }; const B = $0;", &[("A", L(7)), ("B", H(0))]),
];
fn consts(c: &(&str, &[(&str, V)]), t: &[u8], n: N) {
    let d = match parsed(fill(c.0, &[t])) {
        Some(d) => d,
        None => return rt::fail("well-formed definitions rejected"),
    };
    let m = if contains(c.0.as_bytes(), b"enum") { M { ei: true, ..enum_mode() } } else { enum_mode() };
    // enumerators have 32 bits
    let en = contains(c.0.as_bytes(), b"Y = $0");
    let ok = if en { i32_of(n).map_or(false, |v| v != 0) } else { n != N::Out };
    match generate(d, m) {
        Some(s) => {
            rt::check(ok, "constant generated that cannot be expressed");
            let t = lex(s.as_bytes());
            let it = items(&t);
            let mut count = 0;
            for i in &it {
                if let Item::Const(..) = i {
                    count += 1;
                }
            }
            rt::check(count == c.1.len(), "number of constants differs");
            for (name, v) in c.1 {
                let n = match v {
                    H(_) => n,
                    L(v) => N::Pos(*v as u64),
                };
                let mut found = false;
                for i in &it {
                    let Item::Const(x, ty, e) = i else { continue };
                    if !eq(x, name.as_bytes()) {
                        continue;
                    }
                    found = true;
                    let Some(l) = value(e, &it) else {
                        return rt::fail("constant without value");
                    };
                    rt::check(is_num(&l, n), "constant has another value");
                    rt::check(fits(ty, &l), "constant's type does not hold its value");
                    rt::check(l.suf.is_empty() || eq(&l.suf, ty), "constant's type differs from its literal's");
                }
                rt::check(found, "constant not generated");
            }
            rt::reach("generated");
        }
        None => {
            rt::check(!ok, "constant refused");
            rt::reach("refused")
        }
    }
}
fn fits(ty: &[u8], l: &rd::L) -> bool {
    if eq(ty, b"u32") {
        return !l.neg && l.mag <= u32::MAX as u64;
    }
    if eq(ty, b"i32") {
        return if l.neg { l.mag <= 1 << 31 } else { l.mag < 1 << 31 };
    }
    if eq(ty, b"u64") {
        return !l.neg;
    }
    if eq(ty, b"i64") {
        return if l.neg { l.mag <= 1 << 63 } else { l.mag < 1 << 63 };
    }
    false
}
#[unsafe(no_mangle)]
pub fn g05_const() {
    let c = &CONSTS[rt::upto(CONSTS.len())];
    let (t, n) = short(2);
    consts(c, &t, n)
}
#[unsafe(no_mangle)]
pub fn g05_long() {
    if rt::upto(2) == 0 {
        let c = &CONSTS[rt::upto(CONSTS.len())];
        let (t, n) = long();
        consts(c, &t, n)
    } else {
        let b = rt::upto(BOUNDS.len());
        let (t, n) = long();
        bound(b, &t, n)
    }
}
/// array lengths: literal or by name
const BOUNDS: &[&str] = &[
    "struct s { int m[$0]; };",
    "const K = $0; struct s { int m[K]; };",
    "struct s { int m[K]; }; const K = L; const J = 3; const L = $0;",
    "enum e { Y = 0, X = $0 }; struct s { int m[X]; };",
    "const K = X; struct s { int m[K]; }; enum e { X = $0 };",
    "const K = $0; struct s { opaque m[K]; };",
    "struct s { opaque m[$0]; };",
    "const K = $0; typedef int a[K]; struct s { a m; };",
    "typedef opaque a[$0]; struct s { a m; };",
    "enum e { Y = 0, X = $0 }; typedef opaque a[X]; struct s { a m; };",
];
#[unsafe(no_mangle)]
pub fn g05_bound() {
    let b = rt::upto(BOUNDS.len());
    let (t, n) = short(2);
    bound(b, &t, n)
}
fn bound(b: usize, t: &[u8], n: N) {
    let d = match parsed(fill(BOUNDS[b], &[t])) {
        Some(d) => d,
        None => return rt::fail("well-formed definitions rejected"),
    };
    let c = BOUNDS[b].as_bytes();
    let m = M { ei: true, es: false, ..enum_mode() };
    let ok = if contains(c, b"enum") { i32_of(n).map_or(false, |v| v >= 0 && (v > 0 || !contains(c, b"Y = 0"))) } else { matches!(n, N::Pos(_)) };
    match generate(d, m) {
        Some(s) => {
            rt::check(ok, "bound generated that cannot be expressed");
            let t = lex(s.as_bytes());
            let it = items(&t);
            let Some((_, f)) = find_struct(&it, b"S") else {
                return rt::fail("struct not generated");
            };
            rt::check(f.len() == 1 && eq(&f[0].name, b"m"), "struct has other members");
            let Some(f) = f.first() else { return };
            let (sh, len, _) = shape(&f.ty);
            let el: &[u8] = if contains(c, b"opaque") { b"[u8;#]" } else { b"[i32;#]" };
            rt::check(eq(&sh, el), "member has another type");
            let l = len.and_then(|l| value(&l, &it));
            rt::check(l.map_or(false, |l| is_num(&l, n)), "array has another length");
            rt::reach("generated");
        }
        None => {
            rt::check(!ok, "bound refused");
            rt::reach("refused")
        }
    }
}
