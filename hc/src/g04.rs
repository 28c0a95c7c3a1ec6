//! Structs, aliases, and generation that must not crash.
use super::*;

// ------------------------------------------------------------------ G04
const TYPES: &[(&str, &str)] = &[
    ("int", "i32"),
    ("unsigned int", "u32"),
    ("unsigned", "u32"),
    ("hyper", "i64"),
    ("unsigned hyper", "u64"),
    ("float", "f32"),
    ("double", "f64"),
    ("bool", "bool"),
    ("char", "i8"),
    ("unsigned char", "u8"),
    ("short", "i16"),
    ("unsigned short", "u16"),
    ("e", "E"),
    ("t_t", "TT"),
    ("v", "V"),
    // what has no counterpart
    ("quadruple", ""),
    ("struct { int z; }", ""),
    ("enum { Z = 1 }", ""),
    ("union switch (int c) { case 1: void; }", ""),
];
/// forms: `$1` type, `$2` name, `$0` number; shape with `@` for the element
const FORMS: &[(&str, &str)] = &[
    ("$1 $2", "@"),
    ("$1 *$2", "Option<@>"),
    ("$1 $2<>", "Vec<@>"),
    ("$1 $2<4>", "Vec<@>"),
    ("$1 $2[$0]", "[@;#]"),
    ("opaque $2[$0]", "opaque3"),
    ("opaque $2<>", "opaque"),
    ("opaque $2<9>", "opaque"),
    ("string $2<>", "String"),
    ("string $2<5>", "String"),
    ("void", ""),
];
const DEFS: &str = "enum e { A = 0 }; struct t_t { int y; }; union v switch (int c) { case 0: void; };";
fn subst(f: &str, e: &str) -> B {
    let mut o = vec![];
    for c in f.bytes() {
        if c == b'@' {
            o.extend_from_slice(e.as_bytes());
        } else {
            o.push(c);
        }
    }
    o
}
/// field has the type of form f over type t
fn field_is(g: &Field, f: usize, t: usize, n: N, m: M) {
    let (sh, len, boxed) = shape(&g.ty);
    rt::check(!boxed, "member in a box");
    if let Some(l) = len {
        rt::check(literal(&l).map_or(false, |l| is_num(&l, n)), "member with another length");
    }
    let w = FORMS[f].1;
    let fixed = contains(&g.attr, b"serde_xdr::opaque::fixed");
    let var = contains(&g.attr, b"serde_xdr::opaque::variable");
    let ok = if w == "opaque3" {
        (eq(&sh, b"[u8;#]") && fixed && !var) || (eq(&sh, b"FixedArray<[u8;#]>") && g.attr.is_empty())
    } else if w == "opaque" {
        (eq(&sh, b"Vec<u8>") && var && !fixed) || (eq(&sh, b"VariableArray") && g.attr.is_empty())
    } else {
        let signed = contains(&g.attr, b"serde_xdr::primitive::signed32");
        eq(&sh, &subst(w, TYPES[t].1)) && !fixed && !var && (g.attr.is_empty() || (signed && m.es && TYPES[t].1 == "E" && w == "@"))
    };
    rt::check(ok, "member with another type or adapter");
}
fn decl(f: usize, t: usize, name: &str, n: &[u8]) -> Vec<u8> {
    fill(FORMS[f].0, &[n, TYPES[t].0.as_bytes(), name.as_bytes()])
}
fn supported(f: usize, t: usize, n: N) -> bool {
    let w = FORMS[f].1;
    (!w.contains('@') || !TYPES[t].1.is_empty()) && (!FORMS[f].0.contains("$0") || matches!(n, N::Pos(_)))
}
fn struct_of(ms: &[(usize, usize, &str)], t: &[u8], n: N) {
    let mut x = b"struct s { int first_one; ".to_vec();
    for (f, ty, name) in ms {
        x.extend_from_slice(&decl(*f, *ty, name, t));
        x.push(b';');
    }
    x.extend_from_slice(b" string z<>; };");
    x.extend_from_slice(DEFS.as_bytes());
    let Some(d) = parsed(x) else {
        return rt::fail("well-formed definitions rejected");
    };
    let mut ok = true;
    for (f, ty, _) in ms {
        ok &= supported(*f, *ty, n);
    }
    let e = rt::upto(3);
    let m = M { t: rt::boolean(), ei: e == 1, es: e == 2, ui: false, uu: true };
    match generate(d, m) {
        Some(s) => {
            rt::check(ok, "struct generated that cannot be expressed");
            let t = lex(s.as_bytes());
            let it = items(&t);
            let Some((attr, fs)) = find_struct(&it, b"S") else {
                return rt::fail("struct not generated");
            };
            rt::check(contains(attr, b"Serialize") && contains(attr, b"Deserialize"), "struct without codec");
            let mut i = 0;
            let mut next = || {
                i += 1;
                fs.get(i - 1)
            };
            let named = |g: Option<&Field>, n: &str| g.map_or(false, |g| eq(&g.name, n.as_bytes()));
            rt::check(named(next(), "first_one"), "first member missing");
            for (f, ty, name) in ms {
                if FORMS[*f].1.is_empty() {
                    continue;
                }
                let g = next();
                rt::check(named(g, name), "member missing");
                if let Some(g) = g {
                    field_is(g, *f, *ty, n, m);
                }
            }
            let g = next();
            rt::check(named(g, "z"), "last member missing");
            rt::check(next().is_none(), "more members than defined");
            if let Some(g) = fs.first() {
                field_is(g, 0, 0, n, m);
            }
            if let Some(g) = fs.last() {
                field_is(g, 8, 0, n, m);
            }
            rt::reach("generated");
        }
        None => {
            rt::check(!ok, "struct refused");
            rt::reach("refused")
        }
    }
}
#[unsafe(no_mangle)]
pub fn g04_forms() {
    let f = rt::upto(FORMS.len());
    let t = if FORMS[f].0.contains("$1") { rt::upto(TYPES.len()) } else { 0 };
    let (x, n) = if FORMS[f].0.contains("$0") { if t == 0 { num() } else { short(1) } } else { (b"1".to_vec(), N::Pos(1)) };
    struct_of(&[(f, t, "m")], &x, n)
}
/// two members, or a member that refers to the struct itself
#[unsafe(no_mangle)]
pub fn g04_multi() {
    let f = rt::upto(FORMS.len());
    let g = rt::upto(FORMS.len());
    let t = if FORMS[f].0.contains("$1") { rt::upto(TYPES.len() - 4) } else { 0 };
    struct_of(&[(f, t, "m"), (g, (t + 1) % (TYPES.len() - 4), "k")], b"3", N::Pos(3));
}
#[unsafe(no_mangle)]
pub fn g04_self() {
    let f = rt::upto(2);
    let name: Vec<u8> = hole(1 + rt::upto(3), |c| c.is_ascii_alphabetic());
    let mut x = fill("struct $0 { int a; $0 ", &[&name]);
    x.extend_from_slice(if f == 0 { b"*next; };" } else { b"next<>; };" });
    let Some(d) = parsed(x) else { return };
    let m = M { t: true, ei: false, es: true, ui: false, uu: true };
    let Some(s) = generate(d, m) else {
        return rt::fail("struct refused");
    };
    let t = lex(s.as_bytes());
    let it = items(&t);
    for i in &it {
        let Item::Struct(n, _, fs) = i else { continue };
        rt::check(fs.len() == 2, "struct with other members");
        let Some(g) = fs.get(1) else { return };
        let (sh, _, boxed) = shape(&g.ty);
        rt::check(boxed || f == 1, "struct that contains itself");
        let mut w = if f == 0 { b"Option<".to_vec() } else { b"Vec<".to_vec() };
        w.extend_from_slice(n);
        w.push(b'>');
        rt::check(eq(&sh, &w), "member with another type");
        rt::reach("generated");
    }
}

// ------------------------------------------------------------------ G06
/// with aliases, and written out
const ALIAS: &[(&str, &str)] = &[
    ("typedef int a; struct s { a m; a n[$0]; a o<>; a *p; };", "struct s { int m; int n[$0]; int o<>; int *p; };"),
    ("struct s { a m; a n[$0]; a o<>; a *p; }; typedef unsigned hyper a;", "struct s { unsigned hyper m; unsigned hyper n[$0]; unsigned hyper o<>; unsigned hyper *p; };"),
    ("typedef b a; typedef c b; typedef double c; struct s { a m; b n<>; c o; };", "struct s { double m; double n<>; double o; };"),
    ("typedef int a[$0]; struct s { a m; };", "struct s { int m[$0]; };"),
    ("typedef int a<$0>; struct s { a m; };", "struct s { int m<$0>; };"),
    ("typedef string a<$0>; struct s { a m; };", "struct s { string m<$0>; };"),
    ("typedef int *a; struct s { a m; };", "struct s { int *m; };"),
    ("typedef opaque a[$0]; struct s { a m; };", "struct s { opaque m[$0]; };"),
    ("typedef opaque a<$0>; struct s { a m; };", "struct s { opaque m<$0>; };"),
    ("typedef opaque b<>; typedef b a; struct s { int k; a m; };", "struct s { int k; opaque m<>; };"),
    ("typedef a b; typedef opaque a[$0]; struct s { b m; };", "struct s { opaque m[$0]; };"),
    ("typedef opaque b<>; typedef b a; struct s { a m<>; a n[2]; a *o; };", "typedef opaque a<>; struct s { a m<>; a n[2]; a *o; };"),
    ("typedef opaque b[$0]; typedef b a; struct s { a m<>; a n[2]; a *o; };", "typedef opaque a[$0]; struct s { a m<>; a n[2]; a *o; };"),
    ("typedef opaque b<>; typedef b a<>; struct s { a m; };", "typedef opaque b<>; struct s { b m<>; };"),
    ("enum e { A = $0 }; typedef e a; struct s { a m; a n<>; };", "enum e { A = $0 }; struct s { e m; e n<>; };"),
    ("struct t { int x; }; typedef t a; struct s { a m; a *n; };", "struct t { int x; }; struct s { t m; t *n; };"),
    ("typedef int a; union u switch (a c) { case $0: int x; };", "union u switch (int c) { case $0: int x; };"),
    ("typedef b a; typedef unsigned int b; union u switch (a c) { case $0: int x; };", "union u switch (unsigned int c) { case $0: int x; };"),
    ("typedef bool a; union u switch (a c) { case TRUE: int x; default: void; };", "union u switch (bool c) { case TRUE: int x; default: void; };"),
    ("enum e { A = $0 }; typedef e a; typedef a b; union u switch (b c) { case A: int x; };", "enum e { A = $0 }; union u switch (e c) { case A: int x; };"),
    ("typedef hyper a; union u switch (int c) { case $0: a x; case 0x99: a y<>; default: a z; };", "union u switch (int c) { case $0: hyper x; case 0x99: hyper y<>; default: hyper z; };"),
    ("typedef opaque a<>; union u switch (int c) { case $0: a x; default: a z; };", "union u switch (int c) { case $0: opaque x<>; default: opaque z<>; };"),
    ("typedef opaque a[4]; union u switch (bool c) { case TRUE: a x; default: a z; };", "union u switch (bool c) { case TRUE: opaque x[4]; default: opaque z[4]; };"),
    ("typedef string a<>; union u switch (int c) { case $0: a x; default: a z; };", "union u switch (int c) { case $0: string x<>; default: string z<>; };"),
    ("const K = $0; typedef int a[K]; struct s { a m; };", "const K = $0; struct s { int m[K]; };"),
    ("typedef s *a; struct s { int k; a m; int n[$0]; };", "struct s { int k; s *m; int n[$0]; };"),
    ("typedef s a<$0>; typedef a b; struct s { int k; b m; };", "struct s { int k; s m<$0>; };"),
    ("struct s { int k; a m; }; struct t { b *n; }; typedef t *a; typedef s b;", "struct s { int k; t *m; }; struct t { s *n; };"),
    ("typedef b *a; typedef u b; union u switch (int c) { case $0: a x; default: b y<>; };", "union u switch (int c) { case $0: u *x; default: u y<>; };"),
];
/// Box < T > as T
fn unbox<'a>(t: &[&'a [u8]]) -> Ts<'a> {
    let mut o: Ts = vec![];
    let mut open = vec![];
    let mut depth = 0usize;
    let mut i = 0;
    while i < t.len() {
        if eq(t[i], b"Box") && i + 1 < t.len() && eq(t[i + 1], b"<") {
            open.push(depth);
            depth += 1;
            i += 2;
            continue;
        }
        if eq(t[i], b"<") {
            depth += 1;
        }
        if eq(t[i], b">") && depth > 0 {
            depth -= 1;
            if open.last() == Some(&depth) {
                open.pop();
                i += 1;
                continue;
            }
        }
        o.push(t[i]);
        i += 1;
    }
    o
}
/// tokens without the adapter that means the same with and without, and without boxes
fn plain(s: &str) -> B {
    let t = lex(s.as_bytes());
    let mut o: Ts = vec![];
    let mut i = 0;
    while i < t.len() {
        // # [ serde ( with = "serde_xdr::primitive::signed32" ) ]
        if eq(t[i], b"#") && i + 8 < t.len() && eq(t[i + 2], b"serde") && contains(t[i + 6], b"primitive::signed32") {
            i += 9;
            continue;
        }
        o.push(t[i]);
        i += 1;
    }
    join(&unbox(&o))
}
#[unsafe(no_mangle)]
pub fn g06_alias() {
    alias(1)
}
#[unsafe(no_mangle)]
pub fn g06_alias2() {
    alias(2)
}
fn alias(k: usize) {
    let (a, b) = ALIAS[rt::upto(ALIAS.len())];
    let (t, n) = if contains(a.as_bytes(), b"$0") { short(k) } else { (vec![], N::Out) };
    let (Some(da), Some(db)) = (parsed(fill(a, &[&t])), parsed(fill(b, &[&t]))) else {
        return rt::fail("well-formed definitions rejected");
    };
    let _ = n;
    let m = union_mode();
    match (generate(da, m), generate(db, m)) {
        (Some(x), Some(y)) => {
            let (x, y) = (plain(&x), plain(&y));
            rt::check(x.len() == y.len() && eq(&x, &y), "alias generates other code than the type it stands for");
            rt::reach("generated")
        }
        (None, None) => rt::reach("refused"),
        (None, Some(_)) => rt::fail("refused with an alias only"),
        (Some(_), None) => rt::fail("refused without the alias only"),
    }
}
/// type with the aliases of these items written out
fn expand<'a>(t: &[&'a [u8]], it: &[Item<'a>], d: usize, o: &mut Ts<'a>) {
    for x in t {
        let mut r = None;
        for i in it {
            if let Item::Type(n, ty) = i {
                if eq(n, x) {
                    r = Some(ty);
                }
            }
        }
        match r {
            Some(ty) if d > 0 => expand(ty, it, d - 1, o),
            _ => o.push(x),
        }
    }
}
/// kept aliases: the generated alias stands for the same type
#[unsafe(no_mangle)]
pub fn g06_kept() {
    let (a, b) = ALIAS[rt::upto(ALIAS.len())];
    let (t, _) = if contains(a.as_bytes(), b"$0") { short(1) } else { (vec![], N::Out) };
    let (Some(da), Some(db)) = (parsed(fill(a, &[&t])), parsed(fill(b, &[&t]))) else {
        return rt::fail("well-formed definitions rejected");
    };
    let m = M { t: false, ..union_mode() };
    let x = generate(da, m);
    let y = generate(db, M { t: true, ..m });
    let opaque = contains(a.as_bytes(), b"typedef opaque");
    match (x, y) {
        (Some(x), Some(y)) => {
            let (tx, ty) = (lex(x.as_bytes()), lex(y.as_bytes()));
            let (x, y) = (items(&tx), items(&ty));
            for i in &y {
                if let Item::Struct(n, _, fs) = i {
                    let Some((_, gs)) = find_struct(&x, n) else {
                        return rt::fail("struct missing with aliases kept");
                    };
                    rt::check(gs.len() == fs.len(), "other members with aliases kept");
                    for (g, f) in gs.iter().zip(fs) {
                        let (mut a, mut b) = (vec![], vec![]);
                        expand(&g.ty, &x, 4, &mut a);
                        expand(&f.ty, &y, 4, &mut b);
                        let wire = |f: &Field| f.attr.len() == 0 || contains(&f.attr, b"signed32");
                        rt::check(eq(&join(&unbox(&a)), &join(&unbox(&b))) && (eq(&g.attr, &f.attr) || (wire(g) && wire(f))), "other type with aliases kept");
                    }
                }
                if let Item::Enum(n, _, vs) = i {
                    let Some((_, ws)) = find_enum(&x, n) else {
                        return rt::fail("type missing with aliases kept");
                    };
                    rt::check(ws.len() == vs.len(), "other variants with aliases kept");
                    for (g, f) in ws.iter().zip(vs) {
                        rt::check(eq(&g.name, &f.name) && g.payload.len() == f.payload.len() && eq(&g.attr, &f.attr), "other variant with aliases kept");
                        for (p, q) in g.payload.iter().zip(&f.payload) {
                            let (mut a, mut b) = (vec![], vec![]);
                            expand(p, &x, 4, &mut a);
                            expand(q, &y, 4, &mut b);
                            rt::check(eq(&join(&unbox(&a)), &join(&unbox(&b))), "other payload with aliases kept");
                        }
                    }
                }
            }
            rt::reach("generated")
        }
        (None, None) => rt::reach("refused"),
        (None, Some(_)) => {
            rt::check(opaque, "refused with aliases kept");
            rt::reach("refused")
        }
        (Some(_), None) => rt::fail("refused with aliases removed only"),
    }
}
fn letter(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
/// which alias is meant depends on the whole name only
#[unsafe(no_mangle)]
pub fn g06_names() {
    let a = hole(1, letter);
    let b = hole(1 + rt::upto(2), letter);
    let c = hole(1 + rt::upto(2), letter);
    rt::assume(!eq(&a, &b));
    let order = rt::upto(2);
    let x = fill(if order == 0 { "typedef hyper $0; typedef opaque $1<>; struct zzz { $2 m; };" } else { "struct zzz { $2 m; }; typedef opaque $1<>; typedef hyper $0;" }, &[&a, &b, &c]);
    let m = M { t: true, ei: false, es: true, ui: false, uu: true };
    let Some(s) = of(x, m) else {
        return rt::fail("aliases refused");
    };
    let t = lex(s.as_bytes());
    let it = items(&t);
    let Some((_, fs)) = find_struct(&it, b"Zzz") else {
        return rt::fail("struct not generated");
    };
    rt::check(fs.len() == 1, "struct with other members");
    let Some(f) = fs.first() else { return };
    let (sh, _, _) = shape(&f.ty);
    if eq(&c, &a) {
        rt::check(eq(&sh, b"i64") && f.attr.is_empty(), "alias stands for another type")
    } else if eq(&c, &b) {
        rt::check(eq(&sh, b"Vec<u8>") && contains(&f.attr, b"opaque::variable") || eq(&sh, b"VariableArray"), "alias stands for another type")
    } else {
        rt::check(!eq(&sh, b"i64") && !eq(&sh, b"Vec<u8>") && f.attr.is_empty(), "name taken for another alias")
    }
    rt::reach("generated")
}

// ------------------------------------------------------------------ which name is meant
fn small(c: u8) -> bool {
    c.is_ascii_lowercase()
}
fn later(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
const BY_NAME: &[&str] = &[
    "const $0 = 5; const $1 = 9; struct zzz { int m[$2]; };",
    "struct zzz { opaque m[$2]; }; const $1 = 9; const $0 = 5;",
    "enum qqa { $0 = 5 }; enum qqb { $1 = 9 }; struct zzz { int m[$2]; };",
    "enum qqb { QQQ = 1, $1 = 9 }; enum qqa { $0 = 5 }; struct zzz { opaque m[$2]; };",
    "const $0 = 5; enum qqb { $1 = 9 }; struct zzz { int m[$2]; };",
    "const $0 = 5; const $1 = 9; const qqq = $2; struct zzz { int m[qqq]; };",
    "const qqq = $2; enum qqa { $0 = 5 }; const $1 = 9; struct zzz { int m[qqq]; };",
    "const $0 = 5; const $1 = 9; enum zzz { qqq = $2 };",
    "enum zzz { qqq = $2 }; enum qqb { $1 = 9 }; enum qqa { $0 = 5 };",
    "const $0 = 5; const $1 = 9; union zzz switch (int c) { case $2: void; };",
    "enum qqa { $0 = 5 }; enum qqb { $1 = 9 }; union zzz switch (unsigned int c) { case $2: void; };",
];
/// which constant or enumerator is meant depends on the whole name only
#[unsafe(no_mangle)]
pub fn g05_names() {
    let a = hole(1, |c| c.is_ascii_alphabetic());
    let mut b = hole(1, |c| c.is_ascii_alphabetic());
    b.extend(hole(rt::upto(2), letter));
    let mut c = hole(1, |c| c.is_ascii_alphabetic());
    c.extend(hole(rt::upto(2), letter));
    rt::assume(!eq(&a, &b));
    let k = rt::upto(BY_NAME.len());
    let m = M { t: true, ei: true, es: false, ui: true, uu: false };
    let known = eq(&c, &a) || eq(&c, &b);
    let want = if eq(&c, &a) { 5 } else { 9 };
    let Some(d) = parsed(fill(BY_NAME[k], &[&a, &b, &c])) else {
        return rt::fail("well-formed definitions rejected");
    };
    let Some(s) = generate(d, m) else {
        rt::check(!known, "defined name refused");
        return rt::reach("refused");
    };
    let t = lex(s.as_bytes());
    let it = items(&t);
    let l = if k < 7 {
        let Some((_, fs)) = find_struct(&it, b"Zzz") else {
            return rt::fail("struct not generated");
        };
        rt::check(fs.len() == 1, "struct with other members");
        let Some(f) = fs.first() else { return };
        let (_, len, _) = shape(&f.ty);
        len.and_then(|l| value(&l, &it))
    } else if k < 9 {
        find_enum(&it, b"Zzz").and_then(|(_, v)| v.first()).and_then(|v| v.disc.clone())
    } else {
        let f = find_impl(&it, b"XdrIndexer for Zzz").and_then(|b| arms(b, b"index"));
        f.and_then(|f| f.first().and_then(|x| literal(&x.1)))
    };
    match l {
        Some(l) => rt::check(known && !l.neg && l.mag == want, "name stands for the value of another"),
        None => rt::check(!known, "name without its value"),
    }
    rt::reach("generated")
}
/// which enum a discriminant or member has depends on the whole name only
#[unsafe(no_mangle)]
pub fn g03_names() {
    let mut a = hole(1, small);
    a.extend(hole(rt::upto(2), later));
    let mut b = hole(1, small);
    b.extend(hole(1, later));
    rt::assume(!eq(&a, &b));
    let first = rt::boolean();
    let c = if first { &a } else { &b };
    let x = fill(
        if rt::boolean() { "enum $0 { QA = 1, QB = 3 }; enum $1 { QC = 3, QD = 1 }; union zzz switch ($2 k) { case 1: void; case 3: int m; };" } else { "union zzz switch ($2 k) { case 1: void; case 3: int m; }; enum $1 { QC = 3, QD = 1 }; enum $0 { QA = 1, QB = 3 };" },
        &[&a, &b, c],
    );
    let m = M { t: true, ei: true, es: false, ui: false, uu: true };
    let words: &[&[u8]] = &[b"do", b"if", b"as", b"in", b"fn"];
    for w in words {
        rt::assume(!eq(&a, w) && !eq(&b, w));
    }
    let Some(d) = parsed(x) else {
        return rt::fail("well-formed definitions rejected");
    };
    let Some(s) = generate(d, m) else {
        return rt::fail("union refused");
    };
    let t = lex(s.as_bytes());
    let it = items(&t);
    let mut f = None;
    for i in &it {
        if let Item::Impl(h, b) = i {
            if contains(h, b"XdrUnion<") {
                f = arms(b, b"name_by_value");
            }
        }
    }
    let Some(f) = f else {
        return rt::fail("union without values");
    };
    let want: [&[u8]; 2] = if first { [b"QA", b"QB"] } else { [b"QD", b"QC"] };
    let mut seen = [false; 2];
    for (p, x) in &f {
        let (Some(p), Some(n)) = (last(p), named(x)) else { continue };
        for i in 0..2 {
            let arm: &[u8] = if i == 0 { b"Case1" } else { b"Case3" };
            if eq(p, want[i]) {
                rt::check(eq(n, arm) && !seen[i], "enumerator selects another arm");
                seen[i] = true;
            } else {
                rt::check(!eq(n, arm) || eq(p, b"_"), "arm selected by an enumerator of another enum");
            }
        }
    }
    rt::check(seen[0] && seen[1], "enumerator selects no arm");
    rt::reach("generated")
}
/// adapters depend on the type with exactly that name
#[unsafe(no_mangle)]
pub fn g04_names() {
    let mut a = hole(1, small);
    a.extend(hole(rt::upto(2), later));
    let mut b = hole(1, small);
    b.extend(hole(1, later));
    rt::assume(!eq(&a, &b));
    let first = rt::boolean();
    let c = if first { &a } else { &b };
    let x = fill(if rt::boolean() { "enum $0 { QA = 1, QB = 3 }; struct $1 { int k; }; struct zzz { $2 m; };" } else { "struct zzz { $2 m; }; struct $1 { int k; }; enum $0 { QA = 1, QB = 3 };" }, &[&a, &b, c]);
    let m = M { t: true, ei: false, es: true, ui: false, uu: false };
    let Some(d) = parsed(x) else {
        let words: &[&[u8]] = &[b"do", b"if", b"as", b"in", b"fn"];
        return rt::check(words.iter().any(|w| eq(w, &a) || eq(w, &b)), "well-formed definitions rejected");
    };
    let Some(s) = generate(d, m) else {
        return rt::fail("struct refused");
    };
    let t = lex(s.as_bytes());
    let it = items(&t);
    let Some((_, fs)) = find_struct(&it, b"Zzz") else {
        return rt::fail("struct not generated");
    };
    rt::check(fs.len() == 1, "struct with other members");
    let Some(f) = fs.first() else { return };
    rt::check(f.attr.is_empty() || first, "adapter for a type that is no enum");
    rt::check(!contains(&f.attr, b"opaque"), "adapter for a type that is not opaque");
    rt::reach("generated")
}

// ------------------------------------------------------------------ G01
fn any(c: u8) -> bool {
    c < 128
}
const ANY: &[(&str, &str)] = &[
    ("", ""),
    ("const A = ", ";"),
    ("const a = b; const b = ", "; enum e { A = a };"),
    ("const a = ", "; struct s { int m[a]; };"),
    ("const a = c; const b = a; const ", " = b;"),
    ("enum e { A = ", ", B = A };"),
    ("enum e { A = B, B = ", " }; union u switch (e c) { case A: void; };"),
    ("enum e { A = 1, ", " };"),
    ("enum e { A = 1", " };"),
    ("typedef a b; typedef ", " a; struct s { b m; };"),
    ("typedef a b; typedef c a; typedef b ", "; struct s { b m; };"),
    ("typedef int a; typedef a b<>; struct s { ", " m; };"),
    ("struct s { ", " *n; };"),
    ("struct s { ", " n; };"),
    ("struct ", " { s *n; };"),
    ("struct s { int a; ", "};"),
    ("struct s { int a", "; };"),
    ("struct s { int m[", "]; };"),
    ("struct s { opaque m[", "]; };"),
    ("struct s { opaque m", "; };"),
    ("struct s { string m", "; };"),
    ("struct s { quadruple ", "; };"),
    ("struct s { struct { int a; } ", "; };"),
    ("struct s { enum { A = 1 } ", "; };"),
    ("struct s { union switch (int c) { case 1: void; } ", "; };"),
    ("struct s { void", "; };"),
    ("struct s { unsigned ", "; };"),
    ("typedef int ", ";"),
    ("typedef void", ";"),
    ("typedef opaque a", "; struct s { a m; a n<>; a *o; a p[2]; };"),
    ("typedef struct { int a; } ", ";"),
    ("typedef quadruple ", "; struct s { a m; };"),
    ("union u switch (", " c) { case 1: int a; };"),
    ("union u switch (int c", ") { case 1: int a; };"),
    ("union u switch (enum { A = 1 } ", ") { case 1: void; };"),
    ("union u switch (bool c) { case ", ": int a; };"),
    ("union u switch (bool c) { case TRUE: int a; ", "};"),
    ("enum e { A = 1 }; union u switch (e c) { case ", ": int a; default: void; };"),
    ("union u switch (unsigned int c) { case 1: ", "; default: void; };"),
    ("union u switch (int c) { case 1: case ", ": int a; };"),
    ("union u switch (int c) { default: ", "; };"),
    ("union u switch (int c) { ", " };"),
    ("union u switch (e c) { case A: int a; }; enum e { ", " = 1 };"),
    ("typedef opaque o<>; union u switch (int c) { case 1: o a; default: o ", "; };"),
    ("program P { version V { ", " A(void) = 1; } = 1; } = 1;"),
    ("program P { version V { void A(", ") = 1; } = 1; } = 1;"),
    ("%", "\nstruct s { int a; };"),
];
fn no_crash(n: usize, lo: usize, mode: fn() -> M) {
    let c = rt::upto(ANY.len());
    let h = hole(lo + rt::upto(n + 1 - lo), any);
    let mut t = ANY[c].0.as_bytes().to_vec();
    t.extend_from_slice(&h);
    t.extend_from_slice(ANY[c].1.as_bytes());
    match parsed(t) {
        Some(d) => match generate(d, mode()) {
            Some(_) => rt::reach("generated"),
            None => rt::reach("refused"),
        },
        None => rt::reach("rejected"),
    }
}
#[unsafe(no_mangle)]
pub fn g01_any1() {
    no_crash(1, 0, any_mode)
}
#[unsafe(no_mangle)]
pub fn g01_any2() {
    no_crash(2, 2, main_mode)
}
#[unsafe(no_mangle)]
pub fn g01_any2_modes() {
    no_crash(2, 2, any_mode)
}
#[unsafe(no_mangle)]
pub fn g01_any3() {
    no_crash(3, 3, main_mode)
}
/// names and references: every way to connect them
const REFS: &[&str] = &[
    "const a = $0; const b = $1; const c = $2;",
    "enum e { a = $0, b = $1 }; const c = $2;",
    "enum a { b = $0 }; enum c { a = $1, d = $2 };",
    "typedef $0 a; typedef $1 b; typedef $2 c; struct d { a m; b n; c o; };",
    "typedef $0 a<>; typedef $1 b[2]; typedef $2 *c; struct d { a m; };",
    "struct a { $0 m; }; typedef $1 b; union c switch (int x) { case 1: $2 m; default: b n; };",
    "struct a { $0 *m; $1 n<>; }; typedef $2 b;",
    "union a switch ($0 x) { case $1: int m; }; enum b { c = $2 };",
    "typedef $0 a; enum b { c = $1 }; union d switch (a x) { case $2: void; };",
    "const a = $0; struct b { int m[$1]; opaque n[$2]; };",
    "union a switch (int x) { case $0: case $1: int m; default: void; }; const b = 1; const c = $2;",
    "enum a { b = 1, c = $2 }; union d switch (a x) { case $0: int m; case $1: void; };",
];
fn refs(k: usize) {
    let names: &[&[u8]] = &[b"a", b"b", b"c", b"d", b"2", b"-3"];
    let c = rt::upto(REFS.len());
    let h = [names[rt::upto(k)], names[rt::upto(k)], names[rt::upto(k)]];
    match parsed(fill(REFS[c], &h)) {
        Some(d) => match generate(d, any_mode()) {
            Some(_) => rt::reach("generated"),
            None => rt::reach("refused"),
        },
        None => rt::reach("rejected"),
    }
}
#[unsafe(no_mangle)]
pub fn g01_refs() {
    refs(6)
}
/// the names themselves symbolic
fn names(ok: fn(u8) -> bool, mode: fn() -> M) {
    let c = rt::upto(REFS.len());
    let a = hole(1, ok);
    let b = hole(1, ok);
    let k = hole(1, ok);
    match parsed(fill(REFS[c], &[&a, &b, &k])) {
        Some(d) => match generate(d, mode()) {
            Some(_) => rt::reach("generated"),
            None => rt::reach("refused"),
        },
        None => rt::reach("rejected"),
    }
}
#[unsafe(no_mangle)]
pub fn g01_names() {
    names(|c| c.is_ascii_lowercase(), || {
        let e = rt::upto(3);
        M { t: e != 1, ei: e == 1, es: e == 2, ui: e == 1, uu: e == 2 }
    })
}
#[unsafe(no_mangle)]
pub fn g01_names_modes() {
    names(letter, any_mode)
}
const NUMS: &[&str] = &[
    "const A = $0; const B = A;",
    "enum e { A = $0 };",
    "enum e { A = 1, B = $0, C = 2147483647 };",
    "const K = $0; enum e { A = K };",
    "union u switch (int c) { case $0: int m; default: void; };",
    "union u switch (unsigned int c) { case 4294967295: void; case $0: int m; };",
    "union u switch (bool c) { case $0: int m; };",
    "enum e { A = $0 }; union u switch (e c) { case A: int m; case $0: void; };",
    "struct s { int m[$0]; opaque n[$0]; };",
    "struct s { int m<$0>; opaque n<$0>; string o<$0>; };",
    "const K = $0; typedef opaque a[K]; struct s { int m[K]; a n; };",
    "program P { version V { void A(void) = $0; } = $0; } = $0;",
];
#[unsafe(no_mangle)]
pub fn g01_numbers() {
    numbers(main_mode)
}
#[unsafe(no_mangle)]
pub fn g01_numbers_modes() {
    numbers(any_mode)
}
fn numbers(mode: fn() -> M) {
    let c = rt::upto(NUMS.len());
    let (t, n) = num();
    let d = match parsed(fill(NUMS[c], &[&t])) {
        Some(d) => d,
        None => return rt::reach("rejected"),
    };
    let m = mode();
    // complement mode: the output grows with the values
    if (m.ec() && contains(NUMS[c].as_bytes(), b"enum")) || (m.uc() && contains(NUMS[c].as_bytes(), b"union u switch (")) {
        if let N::Pos(v) = n {
            rt::assume(v <= 200 || v > u32::MAX as u64);
        }
        rt::assume(!contains(NUMS[c].as_bytes(), b"2147483647") && !contains(NUMS[c].as_bytes(), b"4294967295"));
    }
    match generate(d, m) {
        Some(_) => rt::reach("generated"),
        None => rt::reach("refused"),
    }
}
