//! Default values.
use super::g02::{by_name, by_value, enum_wants, variant};
use super::g03::{by_cond, C, Wants};
use super::*;

/// expression the function `default` of the type consists of, without the type's name
pub fn default_of<'a>(it: &[Item<'a>], name: &[u8]) -> Option<Ts<'a>> {
    let mut head = b"Default for ".to_vec();
    head.extend_from_slice(name);
    let b = find_impl(it, &head)?;
    let mut i = 0;
    while i + 1 < b.len() && !(eq(b[i], b"fn") && eq(b[i + 1], b"default")) {
        i += 1;
    }
    while i < b.len() && b[i][0] != b'{' {
        i += 1;
    }
    let e = close(b, i);
    if e < i + 2 {
        return None;
    }
    let mut x = &b[i + 1..e - 1];
    if x.len() > 2 && (eq(x[0], name) || eq(x[0], b"Self")) && eq(x[1], b"::") {
        x = &x[2..];
    }
    Some(x.to_vec())
}
/// the variant that is marked as the default one
fn marked<'a, 'b>(attr: &[u8], vs: &'b [Var<'a>]) -> Option<&'b Var<'a>> {
    if !contains(attr, b"Default") {
        return None;
    }
    vs.iter().find(|v| contains(&v.attr, b"#[default]"))
}
/// name of the default enumerator of the generated enum `E`
fn enum_default(it: &[Item]) -> Option<B> {
    let (attr, vs) = find_enum(it, b"E")?;
    if let Some(v) = marked(attr, vs) {
        return Some(v.name.clone());
    }
    let x = default_of(it, b"E")?;
    if x.len() == 1 { Some(x[0].to_vec()) } else { None }
}
pub fn enum_has_default(s: &str, want: &[(&str, i64)], _m: M) {
    let t = lex(s.as_bytes());
    let it = items(&t);
    let Some(n) = enum_default(&it) else {
        return rt::fail("enum without default");
    };
    let Some((_, vs)) = find_enum(&it, b"E") else {
        return rt::fail("enum not generated");
    };
    rt::check(variant(vs, &n).is_some(), "default is no variant");
    rt::check(want.iter().any(|(x, _)| eq(&camel(x), &n)), "default is no enumerator of the definition");
    rt::reach("default");
}
/// the discriminant an expression stands for
fn word_of(x: &[&[u8]], cond: C, it: &[Item], names: &[(&str, i64)]) -> Option<u32> {
    let enumerator = |n: &[u8]| names.iter().find(|(x, _)| eq(&camel(x), n)).map(|(_, v)| *v as u32);
    if eq(x.last()?, b")") && has(x, b"default") {
        // the default of the discriminant's type
        return match cond {
            C::Enum => enumerator(&enum_default(it)?),
            _ => Some(0),
        };
    }
    match cond {
        C::Bool if x.len() == 1 && eq(x[0], b"true") => Some(1),
        C::Bool if x.len() == 1 && eq(x[0], b"false") => Some(0),
        C::Bool => None,
        C::Enum => enumerator(last(x)?),
        _ => literal(x).map(|l| l.word()),
    }
}
pub fn union_has_default(s: &str, w: &Wants, m: M) {
    let Wants { cond, want, default, names } = *w;
    let t = lex(s.as_bytes());
    let it = items(&t);
    let Some((attr, vs)) = find_enum(&it, b"U") else {
        return rt::fail("union not generated");
    };
    let (x, d) = match marked(attr, vs) {
        Some(v) => (vec![&v.name[..]], true),
        None => match default_of(&it, b"U") {
            Some(x) => (x, false),
            None => return rt::fail("union without default"),
        },
    };
    if x.is_empty() {
        return rt::fail("default is no arm");
    }
    let Some((i, v)) = variant(vs, x[0]) else {
        return rt::fail("default is no arm");
    };
    // the values of the arm, one for each type of the variant
    let mut args = vec![];
    if x.len() > 3 && eq(x[1], b"(") {
        args = split(&x[2..x.len() - 1]);
    }
    rt::check(args.len() == v.payload.len() && !(d && !args.is_empty()), "default has another number of values than the arm");
    let listed = |w: u32| want.iter().any(|x| x.0 == w);
    let other = eq(&v.name, b"Default");
    if other {
        // some discriminant has to be left
        let left = match cond {
            C::Bool => !listed(0) || !listed(1),
            C::Enum => names.iter().any(|(_, v)| !listed(*v as u32)),
            _ => true,
        };
        rt::check(default.is_some() && left, "default is an arm that no discriminant selects");
    }
    if m.uc() {
        // cases stand at their values
        rt::check(other || listed(i as u32), "default is no arm of the definition");
    } else if m.uu {
        let head: &[u8] = match cond {
            C::Int => b"XdrUnion<i32>for U",
            C::Uns => b"XdrUnion<u32>for U",
            C::Bool => b"XdrUnion<bool>for U",
            C::Enum => b"XdrUnion<E>for U",
        };
        let Some(f) = find_impl(&it, head).and_then(|b| arms(b, b"name_by_value")) else {
            return rt::fail("union without values");
        };
        let Some(w) = args.first().and_then(|x| word_of(x, cond, &it, names)) else {
            return rt::fail("default without discriminant");
        };
        rt::check(listed(w) != other, "discriminant of the default belongs to another arm");
        rt::check(cond != C::Enum || names.iter().any(|(_, v)| *v as u32 == w), "discriminant of the default is no enumerator");
        rt::check(by_cond(&f, cond, w, names).map_or(false, |n| eq(n, &v.name)), "discriminant of the default selects another arm");
        rt::reach("discriminant");
    } else if !other {
        let Some(b) = find_impl(&it, b"XdrIndexer for U") else {
            return rt::fail("union without indexes");
        };
        let (Some(f), Some(g)) = (arms(b, b"name_by_index"), arms(b, b"index")) else {
            return rt::fail("index is no match");
        };
        let w = by_name(&g, &v.name).map(|l| l.word());
        rt::check(w.map_or(false, |w| listed(w)), "default is no arm of the definition");
        rt::check(w.map_or(false, |w| by_value(&f, w).map_or(false, |n| eq(n, &v.name))), "index of the default selects another arm");
    }
    rt::reach("default");
}
#[unsafe(no_mangle)]
pub fn g08_enum() {
    let c = &ENUMS[rt::upto(ENUMS.len())];
    let (t, n) = short(2);
    enum_wants(c, &[&t], &[n], enum_has_default)
}
#[unsafe(no_mangle)]
pub fn g08_enum_long() {
    let c = &ENUMS[rt::upto(ENUMS.len())];
    let (t, n) = long();
    enum_wants(c, &[&t], &[n], enum_has_default)
}
fn unions(us: &[U], all: bool) {
    let c = rt::upto(us.len());
    let (t, n) = short(1);
    let (p, d) = if all { g03::payloads(c, true) } else { (1, [None, Some(0), Some(6)][rt::upto(3)]) };
    union_of(&us[c], &t, n, p, d, union_mode, union_has_default)
}
#[unsafe(no_mangle)]
pub fn g08_int() {
    unions(INT, false)
}
#[unsafe(no_mangle)]
pub fn g08_of_enum() {
    unions(ENUM, false)
}
#[unsafe(no_mangle)]
pub fn g08_int_deep() {
    unions(INT, true)
}
#[unsafe(no_mangle)]
pub fn g08_of_enum_deep() {
    unions(ENUM, true)
}
#[unsafe(no_mangle)]
pub fn g08_bool() {
    bools(false, union_has_default)
}
#[unsafe(no_mangle)]
pub fn g08_long() {
    long_unions(
        &[0, 2, 8, 10, 12],
        || {
            let u = rt::upto(2);
            M { t: true, ei: false, es: true, ui: u == 1, uu: u == 0 }
        },
        union_has_default,
    )
}
#[unsafe(no_mangle)]
pub fn g08_many() {
    g03::many(11, 0, union_has_default)
}
