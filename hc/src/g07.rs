//! Names.
use super::*;

const KEYWORDS: &[&[u8]] = &[
    b"as", b"break", b"const", b"continue", b"crate", b"else", b"enum", b"extern", b"false", b"fn", b"for", b"if", b"impl", b"in", b"let", b"loop", b"match", b"mod", b"move", b"mut", b"pub", b"ref",
    b"return", b"self", b"Self", b"static", b"struct", b"super", b"trait", b"true", b"type", b"unsafe", b"use", b"where", b"while", b"async", b"await", b"dyn", b"abstract", b"become", b"box", b"do",
    b"final", b"macro", b"override", b"priv", b"typeof", b"unsized", b"virtual", b"yield", b"try", b"gen",
];
fn start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn part(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
/// without `r#`
fn bare(g: &[u8]) -> (bool, &[u8]) {
    if g.len() > 2 && g[0] == b'r' && g[1] == b'#' { (true, &g[2..]) } else { (false, g) }
}
/// letters and digits, without case
fn core(s: &[u8]) -> B {
    let mut o = vec![];
    for c in s {
        if *c != b'_' {
            o.push(c.to_ascii_lowercase());
        }
    }
    o
}
fn keyword(s: &[u8]) -> bool {
    for k in KEYWORDS {
        if eq(k, s) {
            return true;
        }
    }
    false
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Type,
    Field,
    Const,
}
/// the generated name is an identifier, stands for the defined one and has the style of its kind
fn name_ok(g: &[u8], s: &[u8], k: Kind) {
    let (raw, b) = bare(g);
    if b.is_empty() {
        return rt::fail("empty name");
    }
    rt::check(start(b[0]) && !eq(b, b"_"), "generated name is no identifier");
    let special = eq(b, b"crate") || eq(b, b"self") || eq(b, b"super") || eq(b, b"Self");
    rt::check(if raw { !special } else { !keyword(b) }, "generated name is a keyword");
    rt::check(eq(&core(b), &core(s)), "generated name lost or gained letters");
    match k {
        Kind::Type => {
            let mut i = 0;
            while i < b.len() && b[i] == b'_' {
                i += 1;
            }
            rt::check(i >= b.len() || !b[i].is_ascii_lowercase(), "type name without capital")
        }
        Kind::Field => {
            for c in b {
                rt::check(!c.is_ascii_uppercase(), "member name with a capital");
            }
        }
        Kind::Const => {
            let mut i = 0;
            while i < b.len() && i < s.len() && b[i] == s[i] {
                i += 1;
            }
            let same = i == s.len() && (b.len() == i || (b.len() == i + 1 && b[i] == b'_'));
            let under = b.len() == s.len() + 1 && b[0] == b'_' && eq(&b[1..], s);
            rt::check(same || under, "constant with another name");
        }
    }
}
/// generated code means its own names, not those of definitions
fn type_ok(g: &[u8], s: &[u8]) {
    let used: &[&[u8]] = &[b"Option", b"Vec", b"String", b"Box", b"Result", b"Default", b"AsRef", b"TryFrom", b"Serialize", b"Deserialize", b"XdrIndexer", b"XdrUnion"];
    for u in used {
        rt::check(!eq(u, g), "type hides one that generated code uses");
    }
    name_ok(g, s, Kind::Type)
}
/// any identifier of 1 to n characters, or a word with one character or its case changed
fn ident(n: usize) -> Vec<u8> {
    if rt::upto(2) == 0 {
        let mut v = hole(1, start);
        v.extend_from_slice(&hole(rt::upto(n), part));
        v
    } else {
        let w: &[&[u8]] = &[b"self", b"Self", b"crate", b"super", b"type", b"match", b"async", b"gen", b"final", b"typeof", b"userID", b"AbCd_e", b"_a2B", b"XMLHttp3", b"LONG_NAME", b"dyn", b"override", b"result", b"option", b"Vec", b"try_from"];
        let mut v = w[rt::upto(w.len())].to_vec();
        let at = rt::upto(v.len() + 1);
        if at == v.len() {
            v.push(hole(1, part)[0]);
        } else {
            v[at] = hole(1, part)[0];
            rt::assume(at > 0 || start(v[0]));
        }
        v
    }
}
/// the text must be accepted unless the name is a word of the definition language
fn accepted(t: Vec<u8>, n: &[u8]) -> Option<Vec<parser::Definition>> {
    let r = parsed(t);
    if r.is_none() {
        let words: &[&[u8]] = &[
            b"bool", b"case", b"const", b"default", b"double", b"quadruple", b"enum", b"float", b"hyper", b"int", b"opaque", b"string", b"struct", b"switch", b"typedef", b"union", b"unsigned", b"void",
            b"program", b"version", b"char", b"short",
        ];
        let mut k = false;
        for w in words {
            k |= eq(w, n);
        }
        rt::check(k, "name rejected");
        rt::reach("rejected");
    }
    r
}
fn type_word(n: &[u8]) -> bool {
    eq(n, b"char") || eq(n, b"short")
}
fn struct_name(k: usize) {
    let n = ident(k);
    rt::assume(!type_word(&n) && !eq(&core(&n), b"zz"));
    let m = M { t: rt::boolean(), ei: false, es: rt::boolean(), ui: false, uu: false };
    match rt::upto(3) {
        0 => {
            let Some(d) = accepted(fill("struct $0 { int a; }; struct zz { $0 m; $0 n<>; $0 *o; $0 p[2]; };", &[&n]), &n) else { return };
            let Some(s) = generate(d, m) else { return rt::fail("name refused") };
            let t = lex(s.as_bytes());
            let it = items(&t);
            let mut g: Option<B> = None;
            for i in &it {
                if let Item::Struct(x, _, _) = i {
                    if !eq(x, b"Zz") {
                        rt::check(g.is_none(), "struct generated more than once");
                        g = Some(x.clone());
                    }
                }
            }
            let (Some(g), Some((_, fs))) = (g, find_struct(&it, b"Zz")) else {
                return rt::fail("struct not generated");
            };
            type_ok(&g, &n);
            let w: &[(&[u8], &[u8])] = &[(b"", b""), (b"Vec<", b">"), (b"Option<", b">"), (b"[", b";#]")];
            rt::check(fs.len() == 4, "other members");
            for (f, (a, b)) in fs.iter().zip(w) {
                let mut x = a.to_vec();
                x.extend_from_slice(&g);
                x.extend_from_slice(b);
                rt::check(eq(&shape(&f.ty).0, &x), "reference differs from the definition's name");
            }
        }
        1 => {
            let Some(d) = accepted(fill("struct zz { int $0; opaque b<>; };", &[&n]), &n) else { return };
            let Some(s) = generate(d, m) else { return rt::fail("name refused") };
            let t = lex(s.as_bytes());
            let it = items(&t);
            let Some((_, fs)) = find_struct(&it, b"Zz") else {
                return rt::fail("struct not generated");
            };
            rt::check(fs.len() == 2, "other members");
            name_ok(&fs[0].name, &n, Kind::Field);
        }
        _ => {
            let Some(d) = accepted(fill("typedef int $0; struct zz { $0 m; $0 n<>; };", &[&n]), &n) else { return };
            let Some(s) = generate(d, m) else { return rt::fail("name refused") };
            let t = lex(s.as_bytes());
            let it = items(&t);
            let Some((_, fs)) = find_struct(&it, b"Zz") else {
                return rt::fail("struct not generated");
            };
            rt::check(fs.len() == 2, "other members");
            let mut w = b"i32".to_vec();
            if !m.t {
                let mut k = 0;
                for i in &it {
                    if let Item::Type(x, _) = i {
                        w = x.clone();
                        k += 1;
                    }
                }
                rt::check(k == 1, "alias not generated");
                type_ok(&w, &n);
            }
            rt::check(eq(&shape(&fs[0].ty).0, &w), "reference differs from the definition's name");
            let mut x = b"Vec<".to_vec();
            x.extend_from_slice(&w);
            x.push(b'>');
            rt::check(eq(&shape(&fs[1].ty).0, &x), "reference differs from the definition's name");
        }
    }
    rt::reach("generated");
}
#[unsafe(no_mangle)]
pub fn g07_struct() {
    struct_name(3)
}
#[unsafe(no_mangle)]
pub fn g07_struct5() {
    struct_name(5)
}
fn enum_name(k: usize) {
    let n = ident(k);
    rt::assume(!type_word(&n) && !eq(&core(&n), b"zz") && !eq(&core(&n), b"w"));
    // the type parameters of the generated functions
    rt::assume(!eq(&core(&n), b"s") && !eq(&core(&n), b"d"));
    let e = rt::upto(3);
    let m = M { t: true, ei: e == 1, es: e == 2, ui: false, uu: rt::boolean() };
    let which = rt::upto(2);
    let t = if which == 0 { "enum zz { $0 = 0, B9 = 1 }; union u switch (zz c) { case $0: int a; case B9: void; };" } else { "enum $0 { A = 0 }; union u switch ($0 c) { case A: int a; }; struct w { $0 m; };" };
    rt::assume(which == 1 || !eq(&core(&n), b"b9"));
    rt::assume(which == 0 || !eq(&core(&n), b"u"));
    let Some(d) = accepted(fill(t, &[&n]), &n) else { return };
    let Some(s) = generate(d, m) else { return rt::fail("name refused") };
    let t = lex(s.as_bytes());
    let it = items(&t);
    let mut en: Option<(&B, &Vec<Var>)> = None;
    for i in &it {
        if let Item::Enum(x, _, v) = i {
            if !eq(x, b"U") {
                rt::check(en.is_none(), "enum generated more than once");
                en = Some((x, v));
            }
        }
    }
    let (Some((g, vs)), Some((_, us))) = (en, find_enum(&it, b"U")) else {
        return rt::fail("enum not generated");
    };
    rt::check(vs.len() == 2 - which && us.len() == 2 - which, "other variants");
    if vs.is_empty() || us.is_empty() {
        return;
    }
    if which == 0 {
        rt::check(eq(g, b"Zz"), "enum with another name");
        name_ok(&vs[0].name, &n, Kind::Type);
        name_ok(&us[0].name, &n, Kind::Type);
    } else {
        type_ok(g, &n);
        match find_struct(&it, b"W") {
            Some((_, fs)) if fs.len() == 1 => rt::check(eq(&shape(&fs[0].ty).0, g), "reference differs from the definition's name"),
            _ => rt::fail("struct not generated"),
        }
    }
    // every function names the same type and variants
    for i in &it {
        let Item::Impl(h, b) = i else { continue };
        let mut k = 0;
        while k + 2 < b.len() {
            if eq(b[k + 1], b"::") && (k == 0 || !eq(b[k - 1], b"::")) && (eq(b[k], g) || eq(b[k], b"U")) {
                let list = if eq(b[k], g) { vs } else { us };
                let mut hit = false;
                for v in list.iter() {
                    hit |= eq(&v.name, b[k + 2]);
                }
                rt::check(hit, "name of no variant");
            }
            if eq(b[k], b"stringify") && k + 3 < b.len() {
                let list = if contains(h, b"for U") { us } else { vs };
                let mut hit = false;
                for v in list.iter() {
                    hit |= eq(&v.name, b[k + 3]);
                }
                rt::check(hit, "name of no variant");
            }
            k += 1;
        }
    }
    if m.uu {
        rt::check(us[0].payload.len() == 2 && eq(&shape(&us[0].payload[0]).0, g), "discriminant of another type");
    }
    rt::reach("generated");
}
#[unsafe(no_mangle)]
pub fn g07_enum() {
    enum_name(3)
}
#[unsafe(no_mangle)]
pub fn g07_enum5() {
    enum_name(5)
}
fn union_name(k: usize) {
    let n = ident(k);
    rt::assume(!type_word(&n) && !eq(&core(&n), b"w"));
    let m = M { t: true, ei: false, es: true, ui: rt::boolean(), uu: false };
    let Some(d) = accepted(fill("union $0 switch (int c) { case 0: int a; default: void; }; struct w { $0 m; };", &[&n]), &n) else { return };
    let Some(s) = generate(d, m) else { return rt::fail("name refused") };
    let t = lex(s.as_bytes());
    let it = items(&t);
    let mut g: Option<&B> = None;
    for i in &it {
        if let Item::Enum(x, _, _) = i {
            g = Some(x);
        }
    }
    let (Some(g), Some((_, fs))) = (g, find_struct(&it, b"W")) else {
        return rt::fail("union not generated");
    };
    type_ok(g, &n);
    rt::check(fs.len() == 1 && eq(&shape(&fs[0].ty).0, g), "reference differs from the definition's name");
    rt::reach("generated");
}
#[unsafe(no_mangle)]
pub fn g07_union() {
    union_name(3)
}
fn const_name(k: usize) {
    let n = ident(k);
    rt::assume(!type_word(&n) && !eq(&n, b"Y9"));
    let m = M { t: true, ei: false, es: true, ui: false, uu: true };
    let Some(d) = accepted(fill("const $0 = 5; const Y9 = $0; struct w { int m[$0]; };", &[&n]), &n) else { return };
    let Some(s) = generate(d, m) else { return rt::fail("name refused") };
    let t = lex(s.as_bytes());
    let it = items(&t);
    let mut g: Option<&B> = None;
    for i in &it {
        if let Item::Const(x, _, v) = i {
            if !eq(x, b"Y9") {
                g = Some(x);
            }
            rt::check(value(v, &it).map_or(false, |l| !l.neg && l.mag == 5), "reference to another constant");
        }
    }
    let (Some(g), Some((_, fs))) = (g, find_struct(&it, b"W")) else {
        return rt::fail("constant not generated");
    };
    name_ok(g, &n, Kind::Const);
    let l = fs.first().and_then(|f| shape(&f.ty).1).and_then(|l| value(&l, &it));
    rt::check(l.map_or(false, |l| !l.neg && l.mag == 5), "bound refers to another constant");
    rt::reach("generated");
}
#[unsafe(no_mangle)]
pub fn g07_const() {
    const_name(3)
}
